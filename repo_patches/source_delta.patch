From 2f823f64cf3967e56e99606d06cb1e04c5b14229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 01/75] fix: use all extents when expanding different-shape
 values with flat shapes

The overload that takes a flat array of extents used only the first two
extents of each shape, whatever the rank of the value.
---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 2c4752b1c82232550acdfb9c5fb8d2ca3941efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 02/75] fix: pass memory datatype on to array of variable-shape
 value

---
 .../cxx/source/array/same_shape/variable_shape/value.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 0c548a0fd4e58369a2c761be6aab966d88401391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 03/75] fix: do not count skipped elements as selected by a
 hyperslab

The number of elements selected by a hyperslab is the product of the counts,
whatever the strides. Filling a strided selection failed because of this.
---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From 4e7ea1608126e6caabf9a9b85825f140a52e38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 04/75] fix: close data type of attribute

Each Attribute instance left the identifier of its data type open.
---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From 2dbf9aa0ca798aabef2f10974cf477ae1173ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 05/75] fix: keep identifier open when it is move-assigned to
 itself

---
 source/data_model/hdf5/source/identifier.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/data_model/hdf5/source/identifier.cpp b/source/data_model/hdf5/source/identifier.cpp
index ad29a1d..4af8db0 100644
--- a/source/data_model/hdf5/source/identifier.cpp
+++ b/source/data_model/hdf5/source/identifier.cpp
@@ -152,16 +152,19 @@ namespace lue::hdf5 {
 
         try
         {
-            close_if_valid();
+            if (&other != this)
+            {
+                close_if_valid();
 
-            _id = other._id;
-            other._id = -1;
+                _id = other._id;
+                other._id = -1;
 
-            _close = std::move(other._close);
-            other._close = nullptr;
+                _close = std::move(other._close);
+                other._close = nullptr;
 
-            assert_invariant();
-            assert(!other.is_valid());
+                assert_invariant();
+                assert(!other.is_valid());
+            }
         }
         catch (...)
         {
-- 
2.43.0


From 9891ce4bc97e658fabc81ff76fe0dfa3047661bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 06/75] fix: Opening an attribute which does not exist raises
 an exception

---
 .../include/lue/hdf5/primary_data_object.hpp  |  2 --
 source/data_model/hdf5/source/attribute.cpp   | 21 ++++++++++++++++---
 source/data_model/hdf5/source/attributes.cpp  |  3 +--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp b/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
index 3cffd36..8d8800d 100644
--- a/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
@@ -42,8 +42,6 @@ namespace lue::hdf5 {
             template<typename T>
             auto attribute(std::string const& name) const -> T
             {
-                assert(contains_attribute(name));
-
                 return _attributes.read<T>(name);
             }
 
diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 48374f4..88699ed 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -1,7 +1,24 @@
 #include "lue/hdf5/attribute.hpp"
+#include <format>
 
 
 namespace lue::hdf5 {
+    namespace {
+
+        auto open_attribute(Identifier const& location, std::string const& name) -> Identifier
+        {
+            Identifier id{H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose};
+
+            if (!id.is_valid())
+            {
+                throw std::runtime_error(std::format("Cannot open attribute {}", name));
+            }
+
+            return id;
+        }
+
+    }  // Anonymous namespace
+
 
     /*!
         @brief      Construct instance based on @a id
@@ -25,9 +42,7 @@ namespace lue::hdf5 {
     */
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
-        _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
-        _dataspace{H5Aget_space(_id)}
+        Attribute{open_attribute(location, name)}
 
     {
     }
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..b59b571 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -42,12 +42,11 @@ namespace lue::hdf5 {
 
     /*!
         @brief      Return the attribute named @a name
+        @exception  std::runtime_error In case the attribute does not exist
     */
     auto Attributes::attribute(std::string const& name) const -> Attribute
     {
         assert(_id.is_valid());
-        assert(exists(name));
-
         return {_id, name};
     }
 
-- 
2.43.0


From d4dbaa0416982a4641cf5122aa44b2ce7bf6e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 07/75] fix: Writing a value of another length or type to an
 existing attribute replaces it

---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 39 +++++++++++++++++++
 .../hdf5/include/lue/hdf5/attributes.hpp      | 17 +++++++-
 source/data_model/hdf5/source/attributes.cpp  | 28 +++++++++++++
 3 files changed, 82 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..4e69c37 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -108,6 +108,35 @@ namespace lue::hdf5 {
             }
         }
 
+
+        template<typename T>
+            requires(!std::is_base_of_v<std::vector<::hsize_t>, T>)
+        auto value_fits(Datatype const& datatype, Dataspace const& dataspace, [[maybe_unused]] T const& value)
+            -> bool
+        {
+            return datatype == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   dataspace.nr_dimensions() == 0 && dataspace.nr_elements() == 1;
+        }
+
+
+        template<>
+        inline auto value_fits<std::string>(
+            Datatype const& datatype, Dataspace const& dataspace, std::string const& value) -> bool
+        {
+            return !value.empty() && datatype == create_datatype(value.size()) &&
+                   dataspace.nr_dimensions() == 0 && dataspace.nr_elements() == 1;
+        }
+
+
+        template<typename T>
+        auto value_fits(Datatype const& datatype, Dataspace const& dataspace, std::vector<T> const& value)
+            -> bool
+        {
+            return datatype == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   dataspace.nr_dimensions() == 1 &&
+                   dataspace.nr_elements() == static_cast<hssize_t>(value.size());
+        }
+
     }  // namespace detail
 
 
@@ -140,6 +169,16 @@ namespace lue::hdf5 {
             auto dataspace() const -> Dataspace const&;
 
 
+            /*!
+                @brief      Return whether @a value has the datatype and size of the attribute's value
+            */
+            template<typename T>
+            auto fits(T const& value) const -> bool
+            {
+                return detail::value_fits(datatype(), dataspace(), value);
+            }
+
+
             /*!
                 @brief      Write attribute value
                 @tparam     T Type of value to write
diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..5edaf26 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,7 +22,8 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case it exists, but cannot
+                contain @a value because its datatype or size is different, it is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
@@ -33,9 +34,17 @@ namespace lue::hdf5 {
                 {
                     create_attribute(_id, name, value);
                 }
+                else if (Attribute attribute{this->attribute(name)}; attribute.fits(value))
+                {
+                    attribute.write<T>(value);
+                }
                 else
                 {
-                    attribute(name).write<T>(value);
+                    // Only get rid of the current value once the new one is written
+                    std::string const temporary_name{unused_name(name)};
+
+                    create_attribute(_id, temporary_name, value);
+                    replace(name, temporary_name);
                 }
             }
 
@@ -59,6 +68,10 @@ namespace lue::hdf5 {
 
         private:
 
+            auto unused_name(std::string name) const -> std::string;
+
+            void replace(std::string const& name, std::string const& other_name);
+
             //! Identifier of object owning the attributes
             Identifier _id;
     };
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index b59b571..26e0af8 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -1,3 +1,4 @@
+#include <format>
 #include <utility>
 
 #include "lue/hdf5/attributes.hpp"
@@ -59,4 +60,31 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Return a name like @a name which is not in use by an attribute
+    */
+    auto Attributes::unused_name(std::string name) const -> std::string
+    {
+        while (exists(name))
+        {
+            name += '_';
+        }
+
+        return name;
+    }
+
+
+    /*!
+        @brief      Replace the attribute named @a name by the one named @a other_name
+        @exception  std::runtime_error In case the attribute cannot be replaced
+    */
+    void Attributes::replace(std::string const& name, std::string const& other_name)
+    {
+        if (H5Adelete(_id, name.c_str()) < 0 || H5Arename(_id, other_name.c_str(), name.c_str()) < 0)
+        {
+            throw std::runtime_error(std::format("Cannot replace attribute {}", name));
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From 80193de4f00617e58ffe3ce345735e3289516fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 08/75] fix: Empty strings and lists can be stored as
 attributes

---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 4e69c37..5ad46d8 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -2,6 +2,7 @@
 #include "lue/hdf5/dataspace.hpp"
 #include "lue/hdf5/datatype.hpp"
 #include "lue/hdf5/datatype_traits.hpp"
+#include <algorithm>
 #include <cassert>
 #include <stdexcept>
 #include <type_traits>
@@ -31,7 +32,7 @@ namespace lue::hdf5 {
         inline void read_attribute<std::string>(
             Identifier const& id,
             Datatype const& datatype,
-            [[maybe_unused]] Dataspace const& dataspace,
+            Dataspace const& dataspace,
             std::string& value)
         {
             static_assert(
@@ -39,6 +40,12 @@ namespace lue::hdf5 {
 
             assert(datatype.encoding() == H5T_CSET_UTF8);
 
+            if (dataspace.nr_elements() == 0)
+            {
+                value.clear();
+                return;
+            }
+
             std::size_t const nr_bytes{datatype.size()};
 
             value.resize(nr_bytes, 'x');
@@ -61,6 +68,11 @@ namespace lue::hdf5 {
 
             value.resize(nr_elements);
 
+            if (value.empty())
+            {
+                return;
+            }
+
             herr_t const status{H5Aread(id, datatype.id(), value.data())};
             assert(value.size() == static_cast<std::size_t>(nr_elements));
 
@@ -132,7 +144,7 @@ namespace lue::hdf5 {
         auto value_fits(Datatype const& datatype, Dataspace const& dataspace, std::vector<T> const& value)
             -> bool
         {
-            return datatype == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+            return !value.empty() && datatype == Datatype{NativeDatatypeTraits<T>::type_id()} &&
                    dataspace.nr_dimensions() == 1 &&
                    dataspace.nr_elements() == static_cast<hssize_t>(value.size());
         }
@@ -273,11 +285,16 @@ namespace lue::hdf5 {
     inline auto create_attribute(
         Identifier const& location, std::string const& name, std::string const& value) -> Attribute
     {
-        Datatype const datatype{create_datatype(value.size())};
-        Dataspace const dataspace{Dataspace{H5S_SCALAR}};
+        // HDF5 has no strings of zero bytes. An empty string is stored as an attribute without a value.
+        Datatype const datatype{create_datatype(std::max<std::size_t>(value.size(), 1))};
+        Dataspace const dataspace{value.empty() ? H5S_NULL : H5S_SCALAR};
+
         Attribute attribute{create_attribute(location, name, datatype, dataspace)};
 
-        attribute.write(value);
+        if (!value.empty())
+        {
+            attribute.write(value);
+        }
 
         return attribute;
     }
@@ -291,7 +308,10 @@ namespace lue::hdf5 {
         Dataspace const dataspace{create_dataspace(Shape{value.size()})};
         Attribute attribute{create_attribute(location, name, datatype, dataspace)};
 
-        attribute.write(value);
+        if (!value.empty())
+        {
+            attribute.write(value);
+        }
 
         return attribute;
     }
-- 
2.43.0


From 6f37844778e85e61ea489c3a414bcb0d884d547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 09/75] fix: Refusing to discretize a property again leaves its
 kind of discretization as it was

---
 .../data_model/cxx/source/info/property/property_group.cpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/source/info/property/property_group.cpp b/source/data_model/cxx/source/info/property/property_group.cpp
index 6678d9b..54e025b 100644
--- a/source/data_model/cxx/source/info/property/property_group.cpp
+++ b/source/data_model/cxx/source/info/property/property_group.cpp
@@ -77,8 +77,9 @@ namespace lue::data_model {
     */
     void PropertyGroup::set_time_discretization(TimeDiscretization type, PropertyGroup& property)
     {
-        Aspect<TimeDiscretization>(type).save(attributes());
+        // This fails if the property is discretized already
         create_soft_link(property.id(), time_discretization_property_tag);
+        Aspect<TimeDiscretization>(type).save(attributes());
     }
 
 
@@ -92,8 +93,9 @@ namespace lue::data_model {
     */
     void PropertyGroup::set_space_discretization(SpaceDiscretization type, PropertyGroup& property)
     {
-        Aspect<SpaceDiscretization>(type).save(attributes());
+        // This fails if the property is discretized already
         create_soft_link(property.id(), space_discretization_property_tag);
+        Aspect<SpaceDiscretization>(type).save(attributes());
     }
 
 
-- 
2.43.0


From 56b0a77a68ba9f36df542fb45627a0d7337cd6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 10/75] fix: Validating a collection of properties accepts any
 ID for the collection as a whole

---
 source/data_model/cxx/source/validate.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..858203f 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -1621,6 +1621,22 @@ namespace lue::data_model {
                 {
                     active_object_id.read(0, &id);
                 }
+                else
+                {
+                    // Without tracked objects, any ID can have been used for storing the array of a value
+                    auto const& collection =
+                        property_set_.properties().collection<different_shape::Properties>();
+
+                    if (!collection.empty())
+                    {
+                        auto const names = collection.begin()->second.value().object_names();
+
+                        if (!names.empty())
+                        {
+                            id = std::stoull(names.front());
+                        }
+                    }
+                }
             }
 
             tmp_object_id.write(&id);
-- 
2.43.0


From 85bc49f2cbcc09572d7d77142fcc55601aeaac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 11/75] fix: Validating reports missing indices of active
 objects instead of asserting they are there

---
 source/data_model/cxx/source/validate.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 858203f..a6ee6da 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -351,13 +351,23 @@ namespace lue::data_model {
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
+            // This happens when the active object idxs are empty. In that
+            // case, validation of the object tracker succeeded, because it
+            // doesn't know that this collection mustn't be empty, because
             // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
+            // different_shape::constant_shape::Value.
+            if (active_object_ids.size() != active_object_idxs.size())
+            {
+                issues.add_error(
+                    active_object_index.id(),
+                    std::format(
+                        "For each active object an index into its value array must be stored "
+                        "({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
 
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
-- 
2.43.0


From e8d3d85f171503f927ee7bcac4b95385e8488c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 12/75] fix: Validating checks the object IDs of phenomena
 which do not have property sets

---
 source/data_model/cxx/source/validate.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index a6ee6da..0d20de6 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -1591,6 +1591,15 @@ namespace lue::data_model {
 
     static void validate_phenomenon(Phenomenon& phenomenon, hdf5::Issues& issues)
     {
+        // Validate object IDs. These are not necessarily used by a property set.
+        {
+            auto const& object_id = phenomenon.object_id();
+            std::vector<ID> ids(object_id.nr_objects());
+            object_id.read(ids.data());
+
+            validate_id(object_id.id(), ids, issues);
+        }
+
         // Validate property sets
         auto& property_sets_ = phenomenon.property_sets();
 
-- 
2.43.0


From 7d5695c5420da600dd38d8db230515eb2745cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 13/75] fix: Size of chunk is at least one element and at most
 the upper limit for values of any rank

---
 source/data_model/hdf5/source/chunk.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/data_model/hdf5/source/chunk.cpp b/source/data_model/hdf5/source/chunk.cpp
index 895b7f2..ecfe44d 100644
--- a/source/data_model/hdf5/source/chunk.cpp
+++ b/source/data_model/hdf5/source/chunk.cpp
@@ -99,19 +99,30 @@ namespace lue::hdf5 {
                 { return std::get<0>(lhs) < std::get<0>(rhs); });
 
             // Iterate over the dimensions, in increasing extent order.
+            auto nr_dimensions_left = tuples.size();
+
             for (auto const& tuple : tuples)
             {
                 auto const extent = std::get<0>(tuple);
                 auto const index = std::get<1>(tuple);
 
-                // Size of dimension, in elements.
+                // Size of dimension, in elements. At least one.
                 auto const chunk_size_elements_of_dimension = std::min(
-                    static_cast<Shape::value_type>(std::floor(chunk_size_elements_per_dimension)), extent);
+                    static_cast<Shape::value_type>(
+                        std::floor(std::max(chunk_size_elements_per_dimension, 1.0))),
+                    extent);
 
                 // If the extent of the chunk in the current dimension is lower than the average one, we must
-                // enlarge the next chunk dimension extents.
-                chunk_size_elements_per_dimension *=
-                    chunk_size_elements_per_dimension / static_cast<double>(chunk_size_elements_of_dimension);
+                // enlarge the next chunk dimension extents. Each of them gets an equal share.
+                --nr_dimensions_left;
+
+                if (nr_dimensions_left > 0)
+                {
+                    chunk_size_elements_per_dimension *= std::pow(
+                        chunk_size_elements_per_dimension /
+                            static_cast<double>(chunk_size_elements_of_dimension),
+                        1.0 / static_cast<double>(nr_dimensions_left));
+                }
 
                 result[index + 1] = chunk_size_elements_of_dimension;
                 assert(result[index + 1] <= value_shape[index]);
-- 
2.43.0


From 067e6738d0e02b91da908c22bea8ccafefed225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 14/75] fix: Reading from and writing to an array throws if the
 rank of the selection is different

---
 source/data_model/hdf5/source/dataset.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/data_model/hdf5/source/dataset.cpp b/source/data_model/hdf5/source/dataset.cpp
index 3463a66..8998a64 100644
--- a/source/data_model/hdf5/source/dataset.cpp
+++ b/source/data_model/hdf5/source/dataset.cpp
@@ -245,6 +245,13 @@ namespace lue::hdf5 {
 
         // Select elements: create hyperslab
         Dataspace const file_dataspace{this->dataspace()};
+
+        // HDF5 uses as many offsets, strides and counts as there are dimensions in the dataspace
+        if (static_cast<int>(hyperslab.nr_dimensions()) != file_dataspace.nr_dimensions())
+        {
+            throw std::runtime_error("Rank of hyperslab differs from rank of dataset");
+        }
+
         hsize_t const* block = nullptr;
         herr_t status{H5Sselect_hyperslab(
             file_dataspace.id(),
@@ -342,6 +349,13 @@ namespace lue::hdf5 {
 
         // Select elements: create hyperslab
         Dataspace const file_dataspace{this->dataspace()};
+
+        // HDF5 uses as many offsets, strides and counts as there are dimensions in the dataspace
+        if (static_cast<int>(hyperslab.nr_dimensions()) != file_dataspace.nr_dimensions())
+        {
+            throw std::runtime_error("Rank of hyperslab differs from rank of dataset");
+        }
+
         hsize_t const* block = nullptr;
         herr_t status{H5Sselect_hyperslab(
             file_dataspace.id(),
-- 
2.43.0


From 3d6ef1c03e7f95e08d321c0fcce1acbe638593b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 15/75] fix: Reading an attribute throws if its value does not
 have the type and size requested

---
 .../hdf5/include/lue/hdf5/attribute.hpp         | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 5ad46d8..ab2768c 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -16,9 +16,14 @@ namespace lue::hdf5 {
         void read_attribute(
             Identifier const& id,
             Datatype const& datatype,
-            [[maybe_unused]] Dataspace const& dataspace,
+            Dataspace const& dataspace,
             T& value)
         {
+            if (datatype.is_string() || datatype.size() != sizeof(T) || dataspace.nr_elements() != 1)
+            {
+                throw std::runtime_error("Attribute does not contain a single value of the type requested");
+            }
+
             herr_t const status{H5Aread(id, datatype.id(), &value)};
 
             if (status < 0)
@@ -38,6 +43,11 @@ namespace lue::hdf5 {
             static_assert(
                 std::is_same_v<std::string::value_type, char>, "expect std::string::value_type to be char");
 
+            if (!datatype.is_string() || dataspace.nr_elements() > 1)
+            {
+                throw std::runtime_error("Attribute does not contain a string");
+            }
+
             assert(datatype.encoding() == H5T_CSET_UTF8);
 
             if (dataspace.nr_elements() == 0)
@@ -64,6 +74,11 @@ namespace lue::hdf5 {
         void read_attribute(
             Identifier const& id, Datatype const& datatype, Dataspace const& dataspace, std::vector<T>& value)
         {
+            if (datatype.is_string() || datatype.size() != sizeof(T))
+            {
+                throw std::runtime_error("Attribute does not contain values of the type requested");
+            }
+
             hssize_t const nr_elements{dataspace.nr_elements()};
 
             value.resize(nr_elements);
-- 
2.43.0


From ba13353724c2d122c07a94d62d6b6ba17cced2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 16/75] fix: Adding a phenomenon, property or values that fails
 leaves nothing behind

---
 .../different_shape/constant_shape/value.cpp  | 37 +++++++++++++++----
 .../source/array/different_shape/value.cpp    | 22 +++++++++--
 .../different_shape/variable_shape/value.cpp  | 14 +++++--
 .../array/same_shape/variable_shape/value.cpp | 14 +++++--
 .../cxx/source/object/phenomena.cpp           |  3 +-
 .../constant_shape/properties.cpp             |  3 +-
 .../property/different_shape/properties.cpp   |  3 +-
 .../variable_shape/properties.cpp             |  3 +-
 .../same_shape/constant_shape/properties.cpp  |  6 ++-
 .../object/property/same_shape/properties.cpp |  6 ++-
 .../same_shape/variable_shape/properties.cpp  |  3 +-
 .../hdf5/include/lue/hdf5/group.hpp           | 29 +++++++++++++++
 source/data_model/hdf5/source/group.cpp       | 23 ++++++++++++
 13 files changed, 141 insertions(+), 25 deletions(-)

diff --git a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
index 1409b9a..d0e667f 100644
--- a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
@@ -67,10 +67,26 @@ namespace lue::data_model::different_shape::constant_shape {
     void Value::expand(
         Count const nr_objects, ID const* ids, hdf5::Shape const* shapes, Count const* nr_locations_in_time)
     {
-        for (std::size_t object_idx = 0; object_idx < nr_objects; ++object_idx)
+        Index object_idx = 0;
+
+        try
+        {
+            for (; object_idx < nr_objects; ++object_idx)
+            {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+                expand_(ids[object_idx], shapes[object_idx], nr_locations_in_time[object_idx]);
+            }
+        }
+        catch (...)
         {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_(ids[object_idx], shapes[object_idx], nr_locations_in_time[object_idx]);
+            // Either all objects are added or none
+            for (; object_idx > 0; --object_idx)
+            {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+                hdf5::remove(*this, std::to_string(ids[object_idx - 1]));
+            }
+
+            throw;
         }
 
         _nr_objects += nr_objects;
@@ -107,11 +123,18 @@ namespace lue::data_model::different_shape::constant_shape {
         // function is re-used by expand overloads that will update the
         // nr_objects_tag_attribute.
         std::string const name{std::to_string(id)};
-        same_shape::constant_shape::Value value{
-            same_shape::constant_shape::create_value(*this, name, file_datatype(), memory_datatype(), shape)};
-        value.expand(nr_locations_in_time);
 
-        return value;
+        return hdf5::create_or_remove(
+            *this,
+            name,
+            [&]
+            {
+                same_shape::constant_shape::Value value{same_shape::constant_shape::create_value(
+                    *this, name, file_datatype(), memory_datatype(), shape)};
+                value.expand(nr_locations_in_time);
+
+                return value;
+            });
     }
 
 
diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index a0fedac..2be8f18 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -51,10 +51,26 @@ namespace lue::data_model::different_shape {
     */
     void Value::expand(Count const nr_objects, ID const* ids, hdf5::Shape const* shapes)
     {
-        for (Index object_idx = 0; object_idx < nr_objects; ++object_idx)
+        Index object_idx = 0;
+
+        try
         {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], shapes[object_idx]);
+            for (; object_idx < nr_objects; ++object_idx)
+            {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+                expand_core(ids[object_idx], shapes[object_idx]);
+            }
+        }
+        catch (...)
+        {
+            // Either all objects are added or none
+            for (; object_idx > 0; --object_idx)
+            {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+                hdf5::remove(*this, std::to_string(ids[object_idx - 1]));
+            }
+
+            throw;
         }
 
         _nr_objects += nr_objects;
diff --git a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
index 76b0162..913cad1 100644
--- a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
@@ -56,10 +56,18 @@ namespace lue::data_model::different_shape::variable_shape {
         -> different_shape::Value
     {
         std::string const name{std::to_string(idx)};
-        different_shape::Value value{
-            different_shape::create_value(*this, name, file_datatype(), memory_datatype(), rank())};
+        different_shape::Value value{hdf5::create_or_remove(
+            *this,
+            name,
+            [&]
+            {
+                different_shape::Value result{
+                    different_shape::create_value(*this, name, file_datatype(), memory_datatype(), rank())};
+                result.expand(nr_objects, ids, shapes);
+
+                return result;
+            })};
 
-        value.expand(nr_objects, ids, shapes);
 
         attributes().write<Count>(nr_locations_in_time_tag, ++_nr_locations_in_time);
 
diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index b0be844..39a4a10 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -55,9 +55,17 @@ namespace lue::data_model::same_shape::variable_shape {
         -> same_shape::Value
     {
         std::string const name{std::to_string(idx)};
-        same_shape::Value value{
-            same_shape::create_value(*this, name, file_datatype(), memory_datatype(), array_shape)};
-        value.expand(nr_arrays);
+        same_shape::Value value{hdf5::create_or_remove(
+            *this,
+            name,
+            [&]
+            {
+                same_shape::Value result{
+                    same_shape::create_value(*this, name, file_datatype(), memory_datatype(), array_shape)};
+                result.expand(nr_arrays);
+
+                return result;
+            })};
         attributes().write<Count>(nr_locations_in_time_tag, ++_nr_locations_in_time);
 
         return value;
diff --git a/source/data_model/cxx/source/object/phenomena.cpp b/source/data_model/cxx/source/object/phenomena.cpp
index 2358a6a..7a76457 100644
--- a/source/data_model/cxx/source/object/phenomena.cpp
+++ b/source/data_model/cxx/source/object/phenomena.cpp
@@ -22,7 +22,8 @@ namespace lue::data_model {
 
     auto Phenomena::add(std::string const& name, std::string const& description) -> Phenomenon&
     {
-        return Collection::add(name, create_phenomenon(*this, name, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_phenomenon(*this, name, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/different_shape/constant_shape/properties.cpp b/source/data_model/cxx/source/object/property/different_shape/constant_shape/properties.cpp
index ce972e2..c02e5aa 100644
--- a/source/data_model/cxx/source/object/property/different_shape/constant_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/different_shape/constant_shape/properties.cpp
@@ -26,7 +26,8 @@ namespace lue::data_model::different_shape::constant_shape {
         Rank const rank,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, rank, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, rank, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/different_shape/properties.cpp b/source/data_model/cxx/source/object/property/different_shape/properties.cpp
index d1e2ffd..bfe34b3 100644
--- a/source/data_model/cxx/source/object/property/different_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/different_shape/properties.cpp
@@ -26,7 +26,8 @@ namespace lue::data_model::different_shape {
         Rank const rank,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, rank, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, rank, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/different_shape/variable_shape/properties.cpp b/source/data_model/cxx/source/object/property/different_shape/variable_shape/properties.cpp
index d2d72f4..a8e0dd1 100644
--- a/source/data_model/cxx/source/object/property/different_shape/variable_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/different_shape/variable_shape/properties.cpp
@@ -26,7 +26,8 @@ namespace lue::data_model::different_shape::variable_shape {
         Rank const rank,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, rank, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, rank, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/same_shape/constant_shape/properties.cpp b/source/data_model/cxx/source/object/property/same_shape/constant_shape/properties.cpp
index 0f87ea7..b8b330b 100644
--- a/source/data_model/cxx/source/object/property/same_shape/constant_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/same_shape/constant_shape/properties.cpp
@@ -23,7 +23,8 @@ namespace lue::data_model::same_shape::constant_shape {
     auto Properties::add(
         std::string const& name, hdf5::Datatype const& datatype, std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, description); }));
     }
 
 
@@ -33,7 +34,8 @@ namespace lue::data_model::same_shape::constant_shape {
         hdf5::Shape const& shape,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, shape, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, shape, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/same_shape/properties.cpp b/source/data_model/cxx/source/object/property/same_shape/properties.cpp
index c46f43e..75262a0 100644
--- a/source/data_model/cxx/source/object/property/same_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/same_shape/properties.cpp
@@ -23,7 +23,8 @@ namespace lue::data_model::same_shape {
     auto Properties::add(
         std::string const& name, hdf5::Datatype const& datatype, std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, description); }));
     }
 
 
@@ -33,7 +34,8 @@ namespace lue::data_model::same_shape {
         hdf5::Shape const& shape,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, shape, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, shape, description); }));
     }
 
 
diff --git a/source/data_model/cxx/source/object/property/same_shape/variable_shape/properties.cpp b/source/data_model/cxx/source/object/property/same_shape/variable_shape/properties.cpp
index 39e3cac..7ac8572 100644
--- a/source/data_model/cxx/source/object/property/same_shape/variable_shape/properties.cpp
+++ b/source/data_model/cxx/source/object/property/same_shape/variable_shape/properties.cpp
@@ -26,7 +26,8 @@ namespace lue::data_model::same_shape::variable_shape {
         Rank const rank,
         std::string const& description) -> Property&
     {
-        return Collection::add(name, create_property(*this, name, datatype, rank, description));
+        return Collection::add(
+            name, hdf5::create_or_remove(*this, name, [&] { return create_property(*this, name, datatype, rank, description); }));
     }
 
 
diff --git a/source/data_model/hdf5/include/lue/hdf5/group.hpp b/source/data_model/hdf5/include/lue/hdf5/group.hpp
index 412ab14..328f5c1 100644
--- a/source/data_model/hdf5/include/lue/hdf5/group.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/group.hpp
@@ -67,4 +67,33 @@ namespace lue::hdf5 {
 
     LUE_HDF5_EXPORT auto create_group(Group& parent, std::string const& name) -> Group;
 
+    LUE_HDF5_EXPORT auto contains(Group const& parent, std::string const& name) -> bool;
+
+    LUE_HDF5_EXPORT void remove(Group const& parent, std::string const& name);
+
+
+    /*!
+        @brief      Return the result of calling @a create, which adds an object named @a name to @a parent
+        @exception  . Whatever @a create throws. In that case, no object is added.
+    */
+    template<typename Create>
+    auto create_or_remove(Group const& parent, std::string const& name, Create const& create)
+    {
+        bool const is_present{contains(parent, name)};
+
+        try
+        {
+            return create();
+        }
+        catch (...)
+        {
+            if (!is_present && contains(parent, name))
+            {
+                remove(parent, name);
+            }
+
+            throw;
+        }
+    }
+
 }  // namespace lue::hdf5
diff --git a/source/data_model/hdf5/source/group.cpp b/source/data_model/hdf5/source/group.cpp
index 9835a60..cd05e28 100644
--- a/source/data_model/hdf5/source/group.cpp
+++ b/source/data_model/hdf5/source/group.cpp
@@ -311,4 +311,27 @@ namespace lue::hdf5 {
         return {parent, std::move(group_id)};
     }
 
+
+    /*!
+        @brief      Return whether or not @a parent contains something named @a name
+    */
+    auto contains(Group const& parent, std::string const& name) -> bool
+    {
+        return link_exists(parent.id(), name);
+    }
+
+
+    /*!
+        @brief      Remove whatever is named @a name from @a parent
+    */
+    void remove(Group const& parent, std::string const& name)
+    {
+        herr_t const status{H5Ldelete(parent.id(), name.c_str(), H5P_DEFAULT)};
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot remove {} from {}", name, parent.id().pathname()));
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From a714790114eb3ee23f415abca667798d90dc5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 17/75] fix: read 16 bit integer arrays in Python

---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..d54023a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -280,6 +280,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -346,6 +354,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From 81dc4eaf63aa8e6f538e3740d68379c88cad1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 18/75] fix: refuse slices with a negative step in Python

---
 source/data_model/python/source/core/array.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d54023a..da9e988 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -168,6 +168,11 @@ namespace lue::data_model {
             throw py::error_already_set();
         }
 
+        if (static_cast<py::ssize_t>(step) < 0)
+        {
+            throw pybind11::index_error("slices with a negative step are not supported");
+        }
+
         hyperslab.start()[dimension_idx] = start;
         hyperslab.stride()[dimension_idx] = step;
         hyperslab.count()[dimension_idx] = slice_length;
-- 
2.43.0


From fbc9d9c3590d825fdce0c60f20770450160d3156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 19/75] fix: only use tuples as multi-dimensional indices in
 Python

---
 .../data_model/python/source/core/array.cpp   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index da9e988..67c9eb9 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -640,7 +640,7 @@ namespace lue::data_model {
     }
 
 
-    static auto create_hyperslab(hdf5::Shape const shape, std::vector<py::object> const& indices)
+    static auto create_hyperslab(hdf5::Shape const shape, py::tuple const& indices)
         -> std::tuple<hdf5::Hyperslab, hdf5::Shape>
     {
         // With each index, a selection is made along the corresponding
@@ -669,7 +669,7 @@ namespace lue::data_model {
 
         for (size_t i = 0; i < indices.size(); ++i)
         {
-            auto const& index = indices[i];
+            py::object const index = indices[i];
 
             // Strings are implicitly converted into a py::slice.
             // The characters are used for start:count:step. To filter
@@ -686,7 +686,16 @@ namespace lue::data_model {
 
             try
             {
-                long index_ = py::cast<long>(index);
+                // Only integers. A conversion to long would also truncate floating points.
+                auto const integer = py::reinterpret_steal<py::object>(::PyNumber_Index(index.ptr()));
+
+                if (!integer)
+                {
+                    ::PyErr_Clear();
+                    throw py::cast_error();
+                }
+
+                long index_ = py::cast<long>(integer);
 
                 update_hyperslab_by_index(i, index_, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
@@ -718,7 +727,7 @@ namespace lue::data_model {
     template<typename T>
     void set_item(
         Array& array,
-        std::vector<py::object> const& indices,
+        py::tuple const& indices,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
         hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
@@ -792,7 +801,7 @@ namespace lue::data_model {
 
             .def(
                 "__getitem__",
-                [](Array const& array, std::vector<py::object> const& indices) -> py::object
+                [](Array const& array, py::tuple const& indices) -> py::object
                 {
                     auto [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
 
@@ -856,7 +865,7 @@ namespace lue::data_model {
     .def(                                                                                                    \
         "__setitem__",                                                                                       \
         [](Array& array,                                                                                     \
-           std::vector<py::object> const& indices,                                                           \
+           py::tuple const& indices,                                                                         \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
         { set_item<T>(array, indices, values); })
 
-- 
2.43.0


From 2d5ee9aaa308729628c56e555e95d6be09ed4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 20/75] fix: don't read outside of NumPy arrays assigned to an
 array element

---
 source/data_model/python/source/core/array.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 67c9eb9..f02139b 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -575,7 +575,8 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
+    void set_item(
+        Array& array, hdf5::Dataspace const& memory_dataspace, std::int64_t const index, T const* values)
     {
         hdf5::Shape const shape{array.shape()};
         hdf5::Hyperslab hyperslab{shape};
@@ -584,7 +585,7 @@ namespace lue::data_model {
 
         update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
-        write_to_array(array, hyperslab, values);
+        write_to_array(array, memory_dataspace, hyperslab, values);
     }
 
 
@@ -594,7 +595,10 @@ namespace lue::data_model {
         std::int64_t const index,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
+        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
+        auto const memory_dataspace = hdf5::create_dataspace(sizes);
+
+        set_item(array, memory_dataspace, index, static_cast<T const*>(values.request().ptr));
     }
 
 
-- 
2.43.0


From 8f892c37474117d1ef53bd8dfc0ec8f371e0ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 21/75] fix: store scalars and lists assigned to arrays in
 Python unchanged

---
 .../data_model/python/source/core/array.cpp   | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index f02139b..465f8ff 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -743,6 +743,30 @@ namespace lue::data_model {
     }
 
 
+    template<typename T>
+    void set_item(Array& array, py::tuple const& indices, T const value)
+    {
+        auto const& [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
+
+        write_to_array(array, hyperslab, value);
+    }
+
+
+    template<typename Index>
+    void set_item_by_integer(Array& array, Index const& index, py::int_ const& value)
+    {
+        // Conversion fails if the value cannot be represented
+        if (py::detail::make_caster<std::int64_t> caster; caster.load(value, true))
+        {
+            set_item(array, index, py::detail::cast_op<std::int64_t>(caster));
+        }
+        else
+        {
+            set_item(array, index, py::cast<std::uint64_t>(value));
+        }
+    }
+
+
     void init_array(py::module& module)
     {
         {
@@ -822,7 +846,7 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, std::int64_t const index, py::int_ const& value) -> void
-                { set_item(array, index, std::int64_t{value}); })
+                { set_item_by_integer(array, index, value); })
 
             .def(
                 "__setitem__",
@@ -839,13 +863,29 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::int_ const& value) -> void
-                { set_item(array, slice, std::int64_t{value}); })
+                { set_item_by_integer(array, slice, value); })
 
             .def(
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::float_ const& value) -> void
                 { set_item(array, slice, double{value}); })
 
+            .def(
+                "__setitem__",
+                [](Array& array, py::tuple const& indices, py::int_ const& value) -> void
+                { set_item_by_integer(array, indices, value); })
+
+            .def(
+                "__setitem__",
+                [](Array& array, py::tuple const& indices, py::float_ const& value) -> void
+                { set_item(array, indices, double{value}); })
+
+            // Convert the list as a whole, to an array with a type that fits all values
+            .def(
+                "__setitem__",
+                [](py::object const& array, py::object const& index, py::list const& values) -> void
+                { array.attr("__setitem__")(index, py::array(values)); })
+
 
 #define SETITEM_INTEGER(T)                                                                                   \
     .def(                                                                                                    \
-- 
2.43.0


From 4d7ce2eee7f131c277982a5023660ac6de1fc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 22/75] fix: positions, selections and memory of text read and
 written in Python

---
 .../data_model/python/source/core/array.cpp   | 107 +++++++++---------
 1 file changed, 51 insertions(+), 56 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 465f8ff..2563bb1 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -195,8 +195,7 @@ namespace lue::data_model {
             // must contain fixed length Unicode strings (measured in UCS4 encoded code
             // points). Shorter strings are padded with nulls.
 
-            assert(slice_shape.size() == 1);
-            auto const nr_strings = slice_shape[0];
+            auto const nr_strings = hyperslab.nr_elements();
 
             // Read the strings in a data structure of our own
             hdf5::Datatype const memory_datatype{lue::hdf5::create_string_datatype()};
@@ -204,10 +203,11 @@ namespace lue::data_model {
             // Array of variable length arrays of characters. The values_read array will
             // be freed.
             auto values_read{std::make_unique<char*[]>(nr_strings)};
+            auto const memory_dataspace{hdf5::create_dataspace(hdf5::Shape{nr_strings})};
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{memory_datatype, memory_dataspace, values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
@@ -219,36 +219,35 @@ namespace lue::data_model {
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
-                assert(values_read[i][strlen(values_read[i])] == '\0');
+                // Strings that have not been written yet
+                if (values_read[i] == nullptr)
+                {
+                    continue;
+                }
+
                 max_nr_bytes_per_string_utf8 =
                     std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
             // Maximum number of code points per NumPy Unicode string. This happens when
             // a single character is represented by a single byte on the HDF5 side (UTF8).
-            std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
-
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
+            std::size_t const max_nr_code_points{
+                std::max<std::size_t>(max_nr_bytes_per_string_utf8, 1)};
 
-            // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
-            std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+            // Buffer for all Unicode strings, back to back, initialized with nulls
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
 
             {
                 py::str py_string{};
                 Py_UCS4* buffer_ptr{py_buffer_utf32.get()};
 
-                for (std::size_t i = 0; i < nr_strings; ++i)
+                for (std::size_t i = 0; i < nr_strings; ++i, buffer_ptr += max_nr_code_points)
                 {
+                    if (values_read[i] == nullptr)
+                    {
+                        continue;
+                    }
+
                     // Decode UTF8 string as read from LUE array
                     py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
 
@@ -258,13 +257,10 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
-                        nullptr)
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) == nullptr)
                     {
                         throw py::error_already_set();
                     }
-
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
                 }
             }
 
@@ -272,8 +268,7 @@ namespace lue::data_model {
                 py_buffer_utf32.get(), [](void* buffer) { delete[] static_cast<Py_UCS4*>(buffer); });
 
             py::dtype dtype{"U" + std::to_string(max_nr_code_points)};
-            hdf5::Shape shape{nr_strings};
-            result = py::array(dtype, shape, py_buffer_utf32.release(), free_when_done);
+            result = py::array(dtype, slice_shape, py_buffer_utf32.release(), free_when_done);
         }
         else
         {
@@ -966,6 +961,15 @@ namespace lue::data_model {
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::array& values) -> void
                 {
+                    if (!array.datatype().is_string())
+                    {
+                        throw std::runtime_error("Cannot assign these values to an array of numbers");
+                    }
+
+                    // Make sure strings are stored back to back, using the native byte order
+                    values = py::module_::import("numpy").attr("ascontiguousarray")(
+                        values, values.dtype().attr("newbyteorder")("="));
+
                     auto const info = values.request();
 
                     // Verify values are strings
@@ -999,9 +1003,19 @@ namespace lue::data_model {
 
                     auto const nr_strings = slice_shape[0];
 
-                    // Copy strings to new buffer that is compatible with HDF5
+                    if (static_cast<hdf5::Shape::value_type>(info.size) != nr_strings)
+                    {
+                        throw std::runtime_error(
+                            std::format(
+                                "Number of strings to assign ({}) must equal size of selected slice ({})",
+                                info.size,
+                                nr_strings));
+                    }
+
+                    // Copy strings to new buffers that are compatible with HDF5
                     // variable length strings
-                    auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
+                    std::vector<std::string> strings(nr_strings);
+                    std::vector<char const*> hdf5_buffer(nr_strings);
 
                     if (utf8_encoded_strings)
                     {
@@ -1025,12 +1039,8 @@ namespace lue::data_model {
                             boost::algorithm::trim_right_if(
                                 string_utf8, [](char const c) -> bool { return c == '\0'; });
 
-                            // Make space for the UTF8 encoded string + null character. Copy
-                            // the string and append with a null.
-                            hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                            auto hdf5_string = hdf5_buffer.get()[i];
-                            std::ranges::copy(string_utf8, hdf5_string);
-                            hdf5_string[string_utf8.size()] = '\0';
+                            strings[i] = std::move(string_utf8);
+                            hdf5_buffer[i] = strings[i].c_str();
                         }
                     }
                     else
@@ -1040,7 +1050,6 @@ namespace lue::data_model {
                         // Length in bytes of each individual string
                         std::size_t const nr_bytes_per_string_utf32 = info.itemsize;
 
-#ifndef NDEBUG
                         // Number of bytes used to represent a code point
                         std::size_t const nr_bytes_per_code_point_utf32 = 4;
                         assert(nr_bytes_per_string_utf32 % nr_bytes_per_code_point_utf32 == 0);
@@ -1049,7 +1058,6 @@ namespace lue::data_model {
                         std::size_t const nr_code_points =
                             nr_bytes_per_string_utf32 / nr_bytes_per_code_point_utf32;
                         assert(nr_code_points == std::stoul(info.format));
-#endif
 
                         // Buffer is a 1-D array with all strings back to back. The maximum
                         // length of each string is the same: nr_code_points. Shorter strings
@@ -1061,11 +1069,8 @@ namespace lue::data_model {
                             for (std::size_t i = 0; i < nr_strings; ++i)
                             {
                                 py::str py_string_utf32{
-                                    py::reinterpret_steal<py::str>(::PyUnicode_DecodeUTF32(
-                                        (char const*)start_of_string_utf32,
-                                        nr_bytes_per_string_utf32,
-                                        nullptr,
-                                        nullptr))};
+                                    py::reinterpret_steal<py::str>(::PyUnicode_FromKindAndData(
+                                        PyUnicode_4BYTE_KIND, start_of_string_utf32, nr_code_points))};
 
                                 if (!py_string_utf32)
                                 {
@@ -1086,25 +1091,15 @@ namespace lue::data_model {
                                 boost::algorithm::trim_right_if(
                                     string_utf8, [](char const c) -> bool { return c == '\0'; });
 
-                                // Make space for the UTF8 encoded string + null
-                                // character. Copy the string and append with a null.
-                                hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                                auto hdf5_string = hdf5_buffer.get()[i];
-                                std::ranges::copy(string_utf8, hdf5_string);
-                                hdf5_string[string_utf8.size()] = '\0';
-                            }
+                                strings[i] = std::move(string_utf8);
+                                hdf5_buffer[i] = strings[i].c_str();
 
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
+                                start_of_string_utf32 += nr_code_points;
+                            }
                         }
                     }
 
-                    array.write(hdf5_buffer.get());
-
-                    // TODO Make sure this happens also in case of errors
-                    for (std::size_t i = 0; i < nr_strings; ++i)
-                    {
-                        delete[] hdf5_buffer.get()[i];
-                    }
+                    array.write(hyperslab, hdf5_buffer.data());
                 })
 
             ;
-- 
2.43.0


From 9cad6410d40ee2b874e4402002f61583c566d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 23/75] fix: keep owners of objects obtained by attribute or
 name in Python alive

---
 source/data_model/python/source/dataset.cpp   |  9 +--
 .../python/source/object/phenomenon.cpp       |  8 ++-
 .../python/source/object/property_set.cpp     | 67 ++++++++++++-------
 3 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..29eb868 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -125,15 +125,17 @@ namespace lue {
                     "__getattr__",
                     [](Dataset& dataset, std::string const& name)
                     {
+                        auto const policy = py::return_value_policy::reference_internal;
+                        auto const parent = py::cast(&dataset);
                         py::object result = py::none();
 
                         if (dataset.universes().contains(name))
                         {
-                            result = py::cast(&dataset.universes()[name]);
+                            result = py::cast(&dataset.universes()[name], policy, parent);
                         }
                         else if (dataset.phenomena().contains(name))
                         {
-                            result = py::cast(&dataset.phenomena()[name]);
+                            result = py::cast(&dataset.phenomena()[name], policy, parent);
                         }
                         else
                         {
@@ -149,8 +151,7 @@ namespace lue {
                         }
 
                         return result;
-                    },
-                    py::return_value_policy::reference_internal)
+                    })
 
                 ;
 
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..bc5e055 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -249,9 +249,11 @@ namespace lue {
                         auto& property_sets = property_set_found ? phenomenon.property_sets()
                                                                  : phenomenon.collection_property_sets();
 
-                        return py::cast(&property_sets[property_set_name]);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return py::cast(
+                            &property_sets[property_set_name],
+                            py::return_value_policy::reference_internal,
+                            py::cast(&phenomenon));
+                    })
 
                 .def(
                     "add_property_set",
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..3c295bd 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -167,10 +167,13 @@ namespace lue {
 
         // Return a py::object to a property of the right type. Note that a
         // reference to the property is stored. The lifetime of this object
-        // is tied to the properties instance passed in.
+        // is tied to the properties instance passed in, through the Python
+        // object it belongs to.
         // TODO Refactor this with property_new
-        py::object property_reference(Properties& properties, std::string const& name)
+        py::object property_reference(
+            Properties& properties, std::string const& name, py::handle const& parent)
         {
+            auto const policy = py::return_value_policy::reference_internal;
             py::object property = py::none();
             auto const shape_per_object = properties.shape_per_object(name);
             auto const value_variability = properties.value_variability(name);
@@ -184,13 +187,13 @@ namespace lue {
                         case ShapePerObject::same:
                         {
                             using Collection = same_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(&properties.collection<Collection>()[name], policy, parent);
                             break;
                         }
                         case ShapePerObject::different:
                         {
                             using Collection = different_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(&properties.collection<Collection>()[name], policy, parent);
                             break;
                         }
                     }
@@ -211,13 +214,15 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = same_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, parent);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = same_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, parent);
                                     break;
                                 }
                             }
@@ -232,13 +237,15 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = different_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, parent);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = different_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, parent);
 
                                     break;
                                 }
@@ -325,8 +332,7 @@ namespace lue {
                 .def(
                     "__getitem__",
                     [](Properties& properties, std::string const& name)
-                    { return property_reference(properties, name); },
-                    py::return_value_policy::reference_internal)
+                    { return property_reference(properties, name, py::cast(&properties)); })
 
                 .def_property_readonly(
                     "names",
@@ -480,9 +486,9 @@ namespace lue {
                                 std::format("Property set does not contain property '{}'", property_name));
                         }
 
-                        return property_reference(property_set.properties(), property_name);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return property_reference(
+                            property_set.properties(), property_name, py::cast(&property_set));
+                    })
 
                 .def(
                     "add_property",
@@ -566,15 +572,21 @@ namespace lue {
                             case ValueVariability::constant:
                             {
                                 using Property = same_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    py::cast(&property_set));
                                 break;
                             }
                             case ValueVariability::variable:
                             {
                                 using Property = same_shape::constant_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    py::cast(&property_set));
                                 break;
                             }
                         }
@@ -672,8 +684,11 @@ namespace lue {
                                     case ShapeVariability::variable:
                                     {
                                         using Property = same_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                 }
@@ -687,15 +702,21 @@ namespace lue {
                                     case ShapeVariability::constant:
                                     {
                                         using Property = different_shape::constant_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                     case ShapeVariability::variable:
                                     {
                                         using Property = different_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                 }
-- 
2.43.0


From 6eef19038bc9b5ead7df7fd0333184f77cb55575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 24/75] fix: expand with non-contiguous arrays of IDs and
 shapes in Python

---
 source/data_model/python/source/different_shape/value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..a445967 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -29,8 +29,9 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID> const& ids,
-                           py::array_t<hdf5::Shape::value_type> const& shapes) -> Value&
+                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
+                           py::array_t<hdf5::Shape::value_type, py::array::c_style | py::array::forcecast> const&
+                               shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0


From c502349ed82925daf2c84d13faf33a1d8f660065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 25/75] fix: convert values assigned in Python without losing
 them

---
 .../data_model/python/source/core/array.cpp   | 59 +++++++++++++++----
 .../python/source/different_shape/value.cpp   | 12 +++-
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 2563bb1..fe941dd 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -875,12 +875,6 @@ namespace lue::data_model {
                 [](Array& array, py::tuple const& indices, py::float_ const& value) -> void
                 { set_item(array, indices, double{value}); })
 
-            // Convert the list as a whole, to an array with a type that fits all values
-            .def(
-                "__setitem__",
-                [](py::object const& array, py::object const& index, py::list const& values) -> void
-                { array.attr("__setitem__")(index, py::array(values)); })
-
 
 #define SETITEM_INTEGER(T)                                                                                   \
     .def(                                                                                                    \
@@ -888,7 +882,9 @@ namespace lue::data_model {
         [](Array& array,                                                                                     \
            std::int64_t const index,                                                                         \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, index, values); })
+        { set_item<T>(array, index, values); },                                                              \
+        "index"_a,                                                                                           \
+        "values"_a.noconvert())
 
 
 #define SETITEM_SLICE(T)                                                                                     \
@@ -897,7 +893,9 @@ namespace lue::data_model {
         [](Array& array,                                                                                     \
            py::slice const& slice,                                                                           \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, slice, values); })
+        { set_item<T>(array, slice, values); },                                                              \
+        "slice"_a,                                                                                           \
+        "values"_a.noconvert())
 
 
 #define SETITEM_INDICES(T)                                                                                   \
@@ -906,7 +904,9 @@ namespace lue::data_model {
         [](Array& array,                                                                                     \
            py::tuple const& indices,                                                                         \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, indices, values); })
+        { set_item<T>(array, indices, values); },                                                            \
+        "indices"_a,                                                                                         \
+        "values"_a.noconvert())
 
 
             // clang-format off
@@ -961,9 +961,15 @@ namespace lue::data_model {
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::array& values) -> void
                 {
+                    if (values.dtype().kind() != 'S' && values.dtype().kind() != 'U')
+                    {
+                        // Not strings. Try the next overload.
+                        throw py::reference_cast_error();
+                    }
+
                     if (!array.datatype().is_string())
                     {
-                        throw std::runtime_error("Cannot assign these values to an array of numbers");
+                        throw std::runtime_error("Cannot assign strings to an array of numbers");
                     }
 
                     // Make sure strings are stored back to back, using the native byte order
@@ -1102,6 +1108,39 @@ namespace lue::data_model {
                     array.write(hyperslab, hdf5_buffer.data());
                 })
 
+            // Catch-all for when the values are not represented by a contiguous array of a supported type
+            .def(
+                "__setitem__",
+                [](py::object const& array, py::object const& index, py::object const& values) -> void
+                {
+                    auto const as_array = py::module_::import("numpy").attr("array");
+                    bool const is_string = py::cast<Array const&>(array).datatype().is_string();
+                    bool const is_array = py::isinstance<py::array>(values);
+
+                    // As in NumPy, values that don't have a type get the one of the array assigned to
+                    py::array contiguous_values = is_array || is_string
+                                                      ? as_array(values, "order"_a = "C")
+                                                      : as_array(values, "dtype"_a = array.attr("dtype"));
+                    py::dtype dtype = contiguous_values.dtype().attr("newbyteorder")("=");
+
+                    if (dtype.kind() == 'b')
+                    {
+                        dtype = py::dtype::of<std::uint8_t>();
+                    }
+                    else if (dtype.kind() == 'f' && dtype.itemsize() < 4)
+                    {
+                        dtype = py::dtype::of<float>();
+                    }
+
+                    if (is_array && dtype.equal(py::cast<py::array>(values).dtype()) &&
+                        (py::cast<py::array>(values).flags() & py::array::c_style))
+                    {
+                        throw py::type_error("values of this type cannot be assigned using this index");
+                    }
+
+                    array.attr("__setitem__")(index, contiguous_values.attr("astype")(dtype));
+                })
+
             ;
     }
 
diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index a445967..4847412 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -12,6 +12,13 @@ namespace lue {
     namespace data_model {
         namespace different_shape {
 
+            // Array whose elements can be accessed through a pointer
+            template<typename T>
+            using AlignedArray = py::array_t<
+                T,
+                py::array::c_style | py::array::forcecast | py::detail::npy_api::NPY_ARRAY_ALIGNED_>;
+
+
             void init_value(py::module& module)
             {
 
@@ -29,9 +36,8 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
-                           py::array_t<hdf5::Shape::value_type, py::array::c_style | py::array::forcecast> const&
-                               shapes) -> Value&
+                           AlignedArray<ID> const& ids,
+                           AlignedArray<hdf5::Shape::value_type> const& shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0


From 3b5974aaa082abebfeed26e92127a7372fad3eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 26/75] fix: Use the existing object's ID when adding a raster
 to a phenomenon

create_raster_view() tracked object 5, also if the phenomenon's object has another ID. The tracker and the values of the
layers then refer to an object the phenomenon does not contain.
---
 source/data_model/hl/source/raster_view.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..b7deb61 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -403,6 +403,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
 
@@ -739,6 +743,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From 4b6923c61e8f3c7818db6d6470bf8525d76b7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 27/75] fix: Refuse a raster layer named after another property

add_layer() only looked at the layers known by the view, so the name of the discretization property could be used twice,
after which neither property can be found anymore.
---
 source/data_model/hl/source/raster_view.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index b7deb61..e9bf673 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -286,6 +286,13 @@ namespace lue::data_model {
             auto& space_discretization_property{
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name]};
 
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Property-set {} already contains a property {}", this->property_set_name(), name));
+            }
+
             using RasterProperties = different_shape::Properties;
             using RasterProperty = different_shape::Property;
 
@@ -559,6 +566,13 @@ namespace lue::data_model {
             auto& space_discretization_property =
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name];
 
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Property-set {} already contains a property {}", this->property_set_name(), name));
+            }
+
             using RasterProperties = different_shape::constant_shape::Properties;
             using RasterProperty = different_shape::constant_shape::Property;
 
-- 
2.43.0


From a7f9e4eaadb7132b514523b056d3fce87709bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 28/75] fix: Recognize constant rasters with a layer called
 time_grid_shape

Only a time discretization property is an indication of a raster being variable.
---
 source/data_model/hl/source/raster_view.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index e9bf673..0a5e5eb 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -355,7 +355,8 @@ namespace lue::data_model {
                 auto const& property_set{phenomenon.property_sets()[property_set_name]};
                 auto const& properties{property_set.properties()};
 
-                if (!properties.contains(time_discretization_property_name))
+                if (!properties.collection<same_shape::constant_shape::Properties>().contains(
+                        time_discretization_property_name))
                 {
                     result = true;
                 }
-- 
2.43.0


From 41ecc50594ba751a2c8edc9e06a4e2e71a2beab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 29/75] fix: Support blocks that are larger than the raster

Formats like tiled GeoTIFF and Erdas Imagine use blocks of a fixed shape, also for small rasters.
---
 source/data_model/gdal/source/blocks.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/data_model/gdal/source/blocks.cpp b/source/data_model/gdal/source/blocks.cpp
index e7d4ad3..09832ab 100644
--- a/source/data_model/gdal/source/blocks.cpp
+++ b/source/data_model/gdal/source/blocks.cpp
@@ -27,8 +27,8 @@ namespace lue::gdal {
     /*!
         @brief      Construct an instance based on raster shape and a block shape
         @param      raster_shape Shape of the raster
-        @param      block_shape Shape of the block. The extent of each dimension must be equal
-                    or smaller to the corresponding extent of the raster.
+        @param      block_shape Shape of the block. A block can be larger than the raster, in which
+                    case part of its cells are not valid.
     */
     Blocks::Blocks(Shape const& raster_shape, Shape const& block_shape):
 
@@ -37,9 +37,6 @@ namespace lue::gdal {
         _shape_in_blocks{0, 0}
 
     {
-        assert(_block_shape[0] <= _raster_shape[0]);
-        assert(_block_shape[1] <= _raster_shape[1]);
-
         if (_block_shape[0] > 0)
         {
             _shape_in_blocks[0] = extent_in_blocks(_raster_shape[0], _block_shape[0]);
-- 
2.43.0


From 0a3f9f7923e163586934bcdce1b3484263b29717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 30/75] fix: Compare the valid cells of each block when
 comparing rasters

The number of valid cells was determined for the transposed block, the valid cells of blocks along the
border were assumed to be contiguous, and the blocks of the second band were assumed to have the same
shape as those of the first band.
---
 source/data_model/gdal/include/lue/gdal/raster.hpp |  3 +++
 source/data_model/gdal/source/compare_rasters.cpp  | 12 ++++++++----
 source/data_model/gdal/source/raster.cpp           |  7 +++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..4bd8003 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,6 +1,7 @@
 #include "lue/gdal/compare_rasters.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
 #include <cassert>
@@ -63,7 +64,8 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. Only the valid cells are read: blocks along the
+            // border can be partly outside of the raster, and the block shapes of both bands can differ.
             auto const shape{band1.shape()};
             auto const block_shape{band1.block_shape()};
             Blocks const blocks{shape, block_shape};
@@ -78,10 +80,12 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    Offset const offset{block_y * block_shape[0], block_x * block_shape[1]};
+                    Shape const valid_shape{blocks.shape_in_valid_cells({block_y, block_x})};
+                    auto const nr_valid_cells = nr_elements(valid_shape);
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(offset, valid_shape, TypeTraits<Element>::data_type, values1.data());
+                    band2.read(offset, valid_shape, TypeTraits<Element>::data_type, values2.data());
 
                     bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
 
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..7ceaf97 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,13 @@ namespace lue::gdal {
     }
 
 
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From 169697dff709a12b1932f02c47132bc8e9e0d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 31/75] fix: Don't report a no-data value which cannot be
 represented by the elements

---
 .../gdal/include/lue/gdal/raster_band.hpp     | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..d14c915 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -2,6 +2,9 @@
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
+#include <cmath>
+#include <limits>
+#include <type_traits>
 
 
 namespace lue::gdal {
@@ -50,7 +53,25 @@ namespace lue::gdal {
         template<typename Element>
         auto no_data_value(GDALRasterBand& band, int* success) -> Element
         {
-            return band.GetNoDataValue(success);
+            NoDataValue const value{band.GetNoDataValue(success)};
+
+            if constexpr (std::is_integral_v<Element>)
+            {
+                // A value that cannot be represented does not mark any of the cells
+                if (!(value >= static_cast<NoDataValue>(std::numeric_limits<Element>::min()) &&
+                      value <= static_cast<NoDataValue>(std::numeric_limits<Element>::max()) &&
+                      std::trunc(value) == value))
+                {
+                    if (success != nullptr)
+                    {
+                        *success = 0;
+                    }
+
+                    return Element{};
+                }
+            }
+
+            return static_cast<Element>(value);
         }
 
 
-- 
2.43.0


From f3a85166f0bb978d10d8eb67ef286e0d0cc4dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 32/75] fix: Raise an exception when experiment results cannot
 be written

---
 source/quality_assurance/cxx/source/scalability/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index bed340c..f78209b 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -100,6 +100,12 @@ namespace lue::qa {
         }
 
         stream << to_json(experiment);
+        stream.flush();
+
+        if (!stream)
+        {
+            throw std::runtime_error("Results could not be saved to file " + pathname);
+        }
     }
 
 }  // namespace lue::qa
-- 
2.43.0


From 59d173194a755ab7ef0890b8cec53833abba8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 33/75] fix: Make saving experiment results from multiple
 threads safe

---
 .../cxx/source/scalability/io.cpp               | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index f78209b..ab8defd 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -1,5 +1,8 @@
 #include "lue/qa/scalability/instrument/io.hpp"
+#include <array>
+#include <ctime>
 #include <fstream>
+#include <mutex>
 #include <nlohmann/json.hpp>
 
 
@@ -15,12 +18,20 @@ namespace lue::qa {
         auto to_iso_string(Stopwatch::SystemTimePoint const& time_point) -> std::string
         {
             static std::size_t constexpr max_nr_characters{30};
-            static std::array<char, max_nr_characters> buffer;
+            std::array<char, max_nr_characters> buffer{};
 
             auto const c_time_point = std::chrono::system_clock::to_time_t(time_point);
-            auto const* const time = std::localtime(&c_time_point);
+            std::tm time{};
 
-            auto const nr_bytes_written = std::strftime(buffer.data(), max_nr_characters, "%FT%T%z", time);
+            {
+                // The result of std::localtime is shared by all threads
+                static std::mutex mutex;
+                std::lock_guard<std::mutex> const lock{mutex};
+
+                time = *std::localtime(&c_time_point);
+            }
+
+            auto const nr_bytes_written = std::strftime(buffer.data(), max_nr_characters, "%FT%T%z", &time);
             assert(nr_bytes_written <= max_nr_characters);
 
             return {buffer.begin(), buffer.begin() + nr_bytes_written};
-- 
2.43.0


From 03431718c55ca1ac129ce1a04187f841793daffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 34/75] fix: Determine shapes of arrays and partitions exactly

The first shape in a range wasn't the minimum shape if its extents differ, and extents could be one too small
because of rounding (1000 elements in a cube: 9 x 9 x 9).
---
 .../command/scalability/experiment/shape.py   | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/shape.py b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
index 0f5a859..a07c190 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/shape.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
@@ -1,7 +1,23 @@
-import math
 from functools import reduce
 
 
+def floor_root(value, degree):
+    """
+    Return the largest integer which, raised to the power degree, is not larger than value
+
+    The result is exact: the floating-point approximation of the root is only used as a first guess.
+    """
+    result = int(value ** (1.0 / degree))
+
+    while result**degree > value:
+        result -= 1
+
+    while (result + 1) ** degree <= value:
+        result += 1
+
+    return result
+
+
 def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     """
     Determine a maximum array shape to use in scaling experiments, given the
@@ -19,11 +35,8 @@ def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     assert size_of_element > 0
     assert nr_nodes > 0
 
-    nr_elements = float(nr_nodes * memory_available) / size_of_element
-    elements_per_array = nr_elements / nr_arrays
-    elements_per_dimension = math.pow(elements_per_array, 1.0 / rank)
-
-    elements_per_dimension = int(math.floor(elements_per_dimension))
+    elements_per_array = (nr_nodes * memory_available) // (size_of_element * nr_arrays)
+    elements_per_dimension = floor_root(elements_per_array, rank)
 
     return rank * (elements_per_dimension,)
 
@@ -116,15 +129,14 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
     def nr_elements(shape):
         return reduce(lambda e1, e2: e1 * e2, shape)
 
-    def shape(nr_elements, normalized_shape):
-        rank = len(normalized_shape)
-
-        nr_elements_per_dimension = nr_elements ** (1.0 / rank)
+    def shape(size):
+        # Multiply each extent by the same factor: (size / sizes[0]) ** (1 / rank)
+        rank = len(min_shape)
 
         return tuple(
             [
-                int(math.floor(nr_elements_per_dimension * extent))
-                for extent in normalized_shape
+                floor_root(size * extent**rank // sizes[0], rank)
+                for extent in min_shape
             ]
         )
 
@@ -152,8 +164,7 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
         while multiplier * sizes[-1] <= max_nr_elements:
             sizes.append(multiplier * sizes[-1])
 
-    normalized_shape = tuple([float(extent) / max(min_shape) for extent in min_shape])
-    shapes = [shape(size, normalized_shape) for size in sizes]
+    shapes = [shape(size) for size in sizes]
 
     assert len(shapes) == 0 or nr_elements(shapes[-1]) <= max_nr_elements, (
         "{}, {}".format(shapes, max_nr_elements)
-- 
2.43.0


From 8f2279711b2eb64ce557bb985e91fffe8cc670f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 35/75] fix: Store the description and arguments of experiments
 in their settings

---
 .../command/scalability/experiment/experiment.py          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
index 8fb357b..f03ad12 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
@@ -8,6 +8,12 @@ class Arguments(object):
         )
         self.options = json_dict["options"] if "options" in json_dict else {}
 
+    def to_json(self):
+        return {
+            "positionals": self.positionals,
+            "options": self.options,
+        }
+
     @property
     def to_list(self):
         result = []
@@ -45,8 +51,10 @@ class Experiment(object):
 
     def to_json(self):
         result = {
+            "description": self.description,
             "command_pathname": self.command_pathname,
             "command_arguments": self.command_arguments,
+            "arguments": self.arguments.to_json(),
             # "nr_time_steps": self.nr_time_steps,
         }
 
-- 
2.43.0


From e1473ac6b60dd82b87fd4604fd52176c42b00dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 36/75] fix: Support clusters without software environment in
 job scripts

---
 .../command/scalability/experiment/job.py         | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/job.py b/source/quality_assurance/scalability/command/scalability/experiment/job.py
index f9ed5da..f571cb6 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/job.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/job.py
@@ -39,6 +39,17 @@ def srun_configuration(cluster):
     return " ".join(cluster.scheduler.settings.srun_options)
 
 
+def software_configuration(cluster):
+    """
+    Return commands for setting up the software environment, if any
+    """
+    return (
+        cluster.software_environment.configuration
+        if cluster.software_environment
+        else ""
+    )
+
+
 def program_configuration(
     result_prefix,
     cluster,
@@ -255,7 +266,7 @@ def create_slurm_script2(
 
     sbatch_options = cluster.scheduler.settings.sbatch_options
     max_duration = experiment.max_duration
-    software_environment = cluster.software_environment.configuration
+    software_environment = software_configuration(cluster)
 
     exclusive = (
         True
@@ -377,7 +388,7 @@ def create_slurm_script(
         max_duration=(
             "#SBATCH --time={}".format(max_duration) if max_duration is not None else ""
         ),
-        software_environment=cluster.software_environment.configuration,
+        software_environment=software_configuration(cluster),
         job_steps="\n".join(job_steps),
     )
     # job_steps="\nsleep 2s\n".join(job_steps))
-- 
2.43.0


From 39dbd6d7c79cfe4cdbc15d4ac06bfdf9c0f892da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 37/75] fix: Keep block-wise I/O of raster bands in sync with
 cell-wise I/O

---
 source/data_model/gdal/source/raster_band.cpp | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/source/raster_band.cpp b/source/data_model/gdal/source/raster_band.cpp
index 7b8fc5b..2192bb8 100644
--- a/source/data_model/gdal/source/raster_band.cpp
+++ b/source/data_model/gdal/source/raster_band.cpp
@@ -4,6 +4,32 @@
 
 namespace lue::gdal {
 
+    namespace {
+
+        /*!
+            @brief      Remove a block from GDAL's block cache, if it contains it
+            @param      write Whether or not to write cells that only end up in the cache
+
+            Blocks are read and written without using the block cache, which is used when cells are read
+            and written.
+        */
+        auto flush_block(GDALRasterBand& band, Offset const& block_offset, bool const write) -> CPLErr
+        {
+            auto const [offset_y, offset_x] = block_offset;
+            CPLErr cpl_status{CE_None};
+
+            if (GDALRasterBlock* block = band.TryGetLockedBlockRef(offset_x, offset_y))
+            {
+                block->DropLock();
+                cpl_status = band.FlushBlock(offset_x, offset_y, write);
+            }
+
+            return cpl_status;
+        }
+
+    }  // Anonymous namespace
+
+
     /*!
         @brief      Return the datatype of the elements in the raster band
     */
@@ -33,7 +59,14 @@ namespace lue::gdal {
     auto read_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
+
+        // Cells that were written must be part of the block
+        auto cpl_status = flush_block(band, block_offset, true);
+
+        if (cpl_status == CE_None)
+        {
+            cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
+        }
 
         if (cpl_status != CE_None)
         {
@@ -45,7 +78,14 @@ namespace lue::gdal {
     auto write_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
+
+        // Cells that were read or written before are outdated
+        auto cpl_status = flush_block(band, block_offset, false);
+
+        if (cpl_status == CE_None)
+        {
+            cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
+        }
 
         if (cpl_status != CE_None)
         {
-- 
2.43.0


From 4632ac662d0c64cf4b5ec733b0397e9199c834fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 38/75] fix: Keep default partition shape within elongated
 arrays

---
 .../include/lue/framework/core/domain_decomposition.hpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
index ad3a7b5..58d890b 100644
--- a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
+++ b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
@@ -350,13 +350,12 @@ namespace lue {
         Shape<Index, rank> partition_shape{};
 
         bool const not_enough_elements{array_size / nr_worker_threads < default_partition_size};
+        Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
 
         if (not_enough_elements)
         {
             // Shrink the partition. Try to end up with enough partitions to use all cores. It is OK if that
             // is not possible.
-            Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
-
             dimension_size = std::max(Count{1}, min_array_dimension_extent / nr_worker_threads);
         }
         else
@@ -365,6 +364,9 @@ namespace lue {
             // cores.
             dimension_size = std::max(
                 Count{1}, static_cast<Count>(std::floor(std::pow(default_partition_size, 1.0 / rank))));
+
+            // In case of elongated arrays, a partition must not extend beyond the array
+            dimension_size = std::min(dimension_size, min_array_dimension_extent);
         }
 
         partition_shape.fill(dimension_size);
-- 
2.43.0


From 4877d2163ab387d15ee9b4ff061dff75ad1af0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 39/75] fix: Release buffer when an array becomes empty

---
 .../core/include/lue/framework/core/array.hpp | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 7c704e4..ffa9d37 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -317,25 +317,19 @@ namespace lue {
                 {
                     _shape = shape;
 
-                    if (_nr_elements != lue::nr_elements(shape))
+                    _nr_elements = lue::nr_elements(shape);
+
+                    if (_nr_elements == 0)
+                    {
+                        // Empty arrays don't have a buffer
+                        _buffer_size = 0;
+                        _elements.reset();
+                    }
+                    else if (_buffer_size < _nr_elements)
                     {
-                        _nr_elements = lue::nr_elements(shape);
-
-                        if (_buffer_size < _nr_elements)
-                        {
-                            // Current buffer doesn't contain enough room for the elements
-                            _buffer_size = _nr_elements;
-
-                            if (_buffer_size == 0)
-                            {
-                                _elements.reset();
-                            }
-                            else
-                            {
-
-                                _elements = std::make_unique<Element[]>(_buffer_size);
-                            }
-                        }
+                        // Current buffer doesn't contain enough room for the elements
+                        _buffer_size = _nr_elements;
+                        _elements = std::make_unique<Element[]>(_buffer_size);
                     }
 
                     _span = Span{_elements.get(), _shape};
-- 
2.43.0


From 55438ec6c658f7b32db1159f9a6c217c5c2ae469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:55 +0000
Subject: [PATCH 40/75] fix: Keep shape of an array in sync when elements are
 removed

---
 .../core/include/lue/framework/core/array.hpp      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index ffa9d37..aeead68 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -284,6 +284,20 @@ namespace lue {
 
                 std::move(end, this->end(), begin);
                 _nr_elements -= std::distance(begin, end);
+
+                if constexpr (rank == 1)
+                {
+                    // The shape must keep corresponding with the number of elements
+                    if (_nr_elements == 0)
+                    {
+                        clear();
+                    }
+                    else
+                    {
+                        _shape[0] = _nr_elements;
+                        _span = Span{_elements.get(), _shape};
+                    }
+                }
             }
 
 
-- 
2.43.0


From 4fd3891d317e1ce55aa3d05ca2a5a54514eb6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 41/75] fix: Don't clear shared buffers when move-assigning

---
 .../framework/partitioned_array/shared_buffer.hpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
index 0362be1..cd25089 100644
--- a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
+++ b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
@@ -95,14 +95,17 @@ namespace lue {
             */
             auto operator=(SharedBuffer&& other) noexcept -> SharedBuffer&
             {
-                // This class requires that a _ptr always points to a, possibly empty, collection of elements
+                if (this != &other)
+                {
+                    // This class requires that a _ptr always points to a, possibly empty, collection of
+                    // elements. The collection this instance pointed to may be shared with other instances.
+                    SharedBuffer buffer{std::move(other)};
 
-                std::swap(other._ptr, _ptr);
-                assert_invariants();
+                    std::swap(buffer._ptr, _ptr);
+                }
 
-                other._ptr->clear();
+                assert_invariants();
                 other.assert_invariants();
-                lue_hpx_assert(other.size() == 0);
 
                 return *this;
             }
-- 
2.43.0


From 2509906cddcf7efd319b2cf36ad323a8ea794437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 42/75] fix: Support move-assigning an array to itself

---
 source/framework/core/include/lue/framework/core/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index aeead68..05917ea 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -187,10 +187,10 @@ namespace lue {
                     _span = Span{_elements.get(), _shape};
 
                     other.clear();
+                    lue_hpx_assert(other.empty());
                 }
 
                 other.assert_invariants();
-                lue_hpx_assert(other.empty());
                 assert_invariants();
 
                 return *this;
-- 
2.43.0


From ee1f098ab69d96c456bd445755040865fcc518ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 43/75] fix: Interpolate the aspect in the right direction

---
 .../include/lue/framework/algorithm/definition/aspect.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
index 95f5506..9709ea6 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
@@ -54,7 +54,7 @@ namespace lue {
                     }
                     else
                     {
-                        result = std::atan(gradient_x / gradient_y) +
+                        result = std::atan(gradient_y / gradient_x) +
                                  (gradient_x < 0 ? pi<OutputElement> + half_pi<OutputElement>
                                                  : half_pi<OutputElement>);
                     }
-- 
2.43.0


From 9f2d7382a40cad2407932d4c071a175d992f8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 44/75] fix: Position the partitions of a partition operation's
 result by their index

---
 .../algorithm/partition_operation.hpp         | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp b/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
index f47bd9b..dfdcc2d 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
@@ -1,45 +1,31 @@
 #pragma once
 #include "lue/framework/algorithm/functor_traits.hpp"
 #include "lue/framework/core/annotate.hpp"
+#include "lue/framework/core/index_util.hpp"
 #include "lue/framework/partitioned_array_decl.hpp"
 
 
 namespace lue {
     namespace detail {
 
-        template<typename Offset, typename Shape>
-        auto offset_in_partitions(Offset const& partition_offset, Shape const& partition_shape) -> Offset
-        {
-            Offset result{partition_offset};
-            constexpr Rank rank{lue::rank<Offset>};
-
-            for (std::size_t i = 0; i < rank; ++i)
-            {
-                lue_hpx_assert(result[i] % partition_shape[i] == 0);
-                result[i] /= partition_shape[i];
-            }
-
-            return result;
-        }
-
-
         template<typename Policies, typename InputPartition, typename OutputPartition, typename Functor>
         auto partition_aggregate_operation_partition(
-            Policies const& policies, InputPartition const& input_partition, Functor functor)
-            -> OutputPartition
+            Policies const& policies,
+            InputPartition const& input_partition,
+            OffsetT<OutputPartition> const& output_partition_offset,
+            Functor functor) -> OutputPartition
         {
-            using Offset = OffsetT<InputPartition>;
             using InputData = DataT<InputPartition>;
             using OutputElement = ElementT<OutputPartition>;
 
             return hpx::dataflow(
                 hpx::launch::async,
 
-                [policies, functor](InputPartition const& input_partition) mutable -> OutputPartition
+                [policies, output_partition_offset, functor](
+                    InputPartition const& input_partition) mutable -> OutputPartition
                 {
                     AnnotateFunction annotation{"partition_aggregate_operation_partition"};
 
-                    Offset const offset = input_partition.offset(hpx::launch::sync);
                     InputData const input_partition_data = input_partition.data(hpx::launch::sync);
 
                     auto const& indp = std::get<0>(policies.inputs_policies()).input_no_data_policy();
@@ -67,10 +53,7 @@ namespace lue {
                     }
 
                     OutputPartition output_partition{
-                        hpx::find_here(),
-                        offset_in_partitions(offset, input_partition_data.shape()),
-                        {1, 1},
-                        result};
+                        hpx::find_here(), output_partition_offset, {1, 1}, result};
 
                     return output_partition;
                 },
@@ -130,7 +113,13 @@ namespace lue {
         for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
         {
             output_partitions[partition_idx] = hpx::async(
-                action, localities[partition_idx], policies, input_partitions[partition_idx], functor);
+                action,
+                localities[partition_idx],
+                policies,
+                input_partitions[partition_idx],
+                // Each output partition contains a single cell
+                linear_idx_to_idxs(partition_idx, shape_in_partitions(input_array)),
+                functor);
         }
 
         return OutputArray{
-- 
2.43.0


From 1b30dc29222660a09298941972adf2785780e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 45/75] fix: Don't drop negative floating point values from a
 decreasing order route

---
 .../lue/framework/algorithm/definition/decreasing_order.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 748e9e6..31dea45 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -361,7 +361,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
@@ -865,7 +865,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
-- 
2.43.0


From 1b5bac0323e6657c66b77db51bf19237f6ad77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 46/75] fix: Support requesting a decreasing order route in
 case there are no valid values

---
 .../framework/algorithm/definition/decreasing_order.hpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 31dea45..8be680f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -1604,6 +1604,13 @@ namespace lue {
                                 downstream_maxima.end(),
                                 detail::CompareDownstreamMaxima<Value>{});
 
+                            if (downstream_maxima.empty())
+                            {
+                                // No valid values at all, no route
+                                return hpx::make_ready_future(
+                                    std::make_tuple(RouteStarts{}, std::move(components)));
+                            }
+
                             Component component{std::get<1>(downstream_maxima.front())};
 
                             hpx::future<typename Route::FragmentLocation> start_f =
-- 
2.43.0


From 1fdbd9ee44241ab2fb0254150ee92143540fb1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 47/75] fix: Wait for the output partition to be ready before
 walking a route

---
 .../include/lue/framework/algorithm/definition/first_n.hpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
index 3b3f142..6aaf0f8 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
@@ -78,6 +78,9 @@ namespace lue {
                             route_partition_ptr->shape(),
                             no_data_value)};
 
+                        // The code below assumes the partition is ready
+                        _output_partition.wait();
+
                         std::set<RouteID> const route_ids{route_partition_ptr->route_ids()};
 
                         for (RouteID const route_id : route_ids)
-- 
2.43.0


From 75f85e5b5a4179154f473466432128354465dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 48/75] fix: Wait for the route partition to be ready before
 storing route fragments in it

---
 .../lue/framework/algorithm/definition/decreasing_order.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 8be680f..1bfa72c 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -173,6 +173,7 @@ namespace lue {
 
                                     // Write all route fragments to the partition
                                     lue_hpx_assert(route_partition.valid());
+                                    route_partition.wait();
                                     auto route_partition_ptr{ready_component_ptr(route_partition)};
                                     route_partition_ptr->set_route_fragments(std::move(route_fragments));
 
-- 
2.43.0


From 7198034e8b6543e80ae0e626c5604c42e779e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 49/75] fix: Support finishing a route partition before it has
 been asked for

---
 .../framework/algorithm/definition/decreasing_order.hpp   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 1bfa72c..7c3d825 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -105,6 +105,7 @@ namespace lue {
 
                         _route_partition{hpx::find_here(), offset, shape},
                         _route_partition_p{},
+                        _route_partition_id_f{_route_partition_p.get_future()},
                         _record_route_fragment_mutex{},
                         _route_fragments{},
                         _route_fragment_ends{},
@@ -124,7 +125,9 @@ namespace lue {
                     */
                     auto route_partition() -> RoutePartition
                     {
-                        return RoutePartition{_route_partition_p.get_future()};
+                        // The future is obtained from the promise upon construction. By the time
+                        // this function is called, the partition may already have been finished.
+                        return RoutePartition{std::move(_route_partition_id_f)};
                     }
 
 
@@ -195,6 +198,9 @@ namespace lue {
                     //! Promise for the ID of the route partition server component
                     hpx::promise<hpx::id_type> _route_partition_p;
 
+                    //! Future to the ID of the route partition server component
+                    hpx::future<hpx::id_type> _route_partition_id_f;
+
                     hpx::shared_mutex _record_route_fragment_mutex;
 
                     RouteFragments _route_fragments;
-- 
2.43.0


From 145a26315b1c91e8e8faafb0c58c22e5691129b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 50/75] fix: Support finishing a walk's output partition before
 it has been asked for

---
 .../algorithm/definition/first_n.hpp          | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
index 6aaf0f8..6a4a535 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
@@ -55,6 +55,7 @@ namespace lue {
                         ComponentServerBase{},
                         _policies{policies},
                         _output_partition_promise{},
+                        _output_partition_id_f{_output_partition_promise.get_future()},
                         _output_partition{},
                         _route_partition{std::move(route_partition)},
                         _walk_mutex{},
@@ -92,14 +93,6 @@ namespace lue {
                             // the walk has finished.
                             _fragment_idxs[route_id] = 0;
                         }
-                    }
-
-
-                    OutputPartition result_partition()
-                    {
-                        // Connect the promise with the future
-                        // This function must be called exactly once
-                        OutputPartition partition{_output_partition_promise.get_future()};
 
                         // If the route partition contains no fragments, the output partition
                         // can be marked as finished immediately
@@ -107,8 +100,14 @@ namespace lue {
                         {
                             finish_partition();
                         }
+                    }
+
 
-                        return partition;
+                    OutputPartition result_partition()
+                    {
+                        // This function must be called exactly once. By the time it is called,
+                        // the partition may already have been finished.
+                        return OutputPartition{std::move(_output_partition_id_f)};
                     }
 
 
@@ -326,6 +325,9 @@ namespace lue {
 
                     mutable hpx::promise<hpx::id_type> _output_partition_promise;
 
+                    //! Future to the ID of the output partition server component
+                    hpx::future<hpx::id_type> _output_partition_id_f;
+
                     OutputPartition _output_partition;
 
                     RoutePartition _route_partition;
-- 
2.43.0


From 1f88b5f47f370829881edc20abe4780c197de5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 51/75] fix: Don't finish a route partition while a route
 fragment is being recorded

---
 .../lue/framework/algorithm/definition/decreasing_order.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 7c3d825..419c1d5 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -1021,7 +1021,9 @@ namespace lue {
                     void skip_recording_route_fragments([[maybe_unused]] RouteID const route_id)
                     {
                         // This function is never accessed by multiple threads at the same
-                        // time. There is only a single route.
+                        // time. There is only a single route. But the upstream route fragment may
+                        // still be in the process of being recorded.
+                        std::unique_lock write_lock{_data._record_route_fragment_mutex};
                         lue_hpx_assert(!_local_values.empty());
                         _local_values.clear();
                         _data.finish_partition();
-- 
2.43.0


From 4859ebb3a556561f776afa2da2545a10e995e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:36 +0000
Subject: [PATCH 52/75] fix: Free up channels used by routing operations once
 results are ready

---
 .../definition/accumulating_router.hpp        | 21 +++++++++----------
 .../algorithm/definition/inflow_count.hpp     | 19 +++++++----------
 .../algorithm/detail/communicator.hpp         | 11 +++++++---
 3 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
index ecad279..e5cd62a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
@@ -678,18 +678,17 @@ namespace lue {
             // the results are ready, these communicators go out of scope. Once they do, free up AGAS
             // resources. Note that component clients are reference-counted.
             // TODO: Is this actually necessary?
-            hpx::when_all(
-                partitions.begin(),
-                partitions.end(),
-                [inflow_count_communicators = std::move(inflow_count_communicators),
-                 material_communicators =
-                     std::move(material_communicators)]([[maybe_unused]] auto&& partitions) mutable -> auto
-                {
-                    auto f1{inflow_count_communicators.unregister()};
-                    auto f2{material_communicators.unregister()};
+            hpx::when_all(partitions.begin(), partitions.end())
+                .then(
+                    [inflow_count_communicators = std::move(inflow_count_communicators),
+                     material_communicators =
+                         std::move(material_communicators)]([[maybe_unused]] auto&& partitions) mutable
+                    {
+                        auto f1{inflow_count_communicators.unregister()};
+                        auto f2{material_communicators.unregister()};
 
-                    hpx::wait_all(f1, f2);
-                });
+                        hpx::wait_all(f1, f2);
+                    });
         }
 
 
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
index 2dd9b51..17af9f6 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
@@ -708,18 +708,15 @@ namespace lue {
         // ---------------------------------------------------------------------
         // Keep channel components layered in communicators alive until
         // the results are ready. Once they are, free up AGAS resources.
-        hpx::when_all(
-            inflow_count_partitions.begin(),
-            inflow_count_partitions.end(),
-            [inflow_count_communicators =
-                 std::move(inflow_count_communicators)]([[maybe_unused]] auto&& partitions) mutable
-            {
-                HPX_UNUSED(inflow_count_communicators);
-
-                auto f1{inflow_count_communicators.unregister()};
+        hpx::when_all(inflow_count_partitions.begin(), inflow_count_partitions.end())
+            .then(
+                [inflow_count_communicators =
+                     std::move(inflow_count_communicators)]([[maybe_unused]] auto&& partitions) mutable
+                {
+                    auto f1{inflow_count_communicators.unregister()};
 
-                hpx::wait_all(f1);
-            });
+                    hpx::wait_all(f1);
+                });
 
 
         return {flow_direction, std::move(inflow_count_partitions)};
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/detail/communicator.hpp b/source/framework/algorithm/include/lue/framework/algorithm/detail/communicator.hpp
index 8738911..007c3e5 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/detail/communicator.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/detail/communicator.hpp
@@ -237,12 +237,17 @@ namespace lue::detail {
 
                 lue_hpx_assert(send_channel(direction));
 
-                [[maybe_unused]] hpx::future<hpx::id_type> result{
+                hpx::future<hpx::id_type> result{
                     hpx::unregister_with_basename(channel_name(basename, direction), _idx)};
 
 #ifndef NDEBUG
-                result.then([](hpx::future<hpx::id_type> const& result)
-                            { lue_hpx_assert(!result.has_exception()); });
+                result = result.then(
+                    [](hpx::future<hpx::id_type>&& result)
+                    {
+                        lue_hpx_assert(!result.has_exception());
+
+                        return result.get();
+                    });
 #endif
 
                 send_channel(direction) = Channel{};
-- 
2.43.0


From c2222a99114ed01ca5db542fddf51e645c013ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:14 +0000
Subject: [PATCH 53/75] fix: Support routing along partitions with an extent of
 a single cell

---
 .../definition/accumulating_router.hpp        | 151 ------------
 .../algorithm/definition/inflow_count.hpp     | 218 +++++++++++++++++-
 .../algorithm/detail/inflow_count.hpp         |  36 +++
 3 files changed, 252 insertions(+), 153 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
index e5cd62a..2f3d49f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
@@ -143,157 +143,6 @@ namespace lue {
         };
 
 
-        inline auto destination_cell(
-            Count const extent0,
-            Count const extent1,
-            Index const idx0,
-            Index const idx1,
-            Index const offset0,
-            Index const offset1) -> std::tuple<accu::Direction, Index>
-        {
-            lue_hpx_assert((idx0 == 0 || idx0 == extent0 - 1) || (idx1 == 0 || idx1 == extent1 - 1));
-            lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
-            lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
-
-            // Which neighbouring partition to send a message to
-            accu::Direction direction{};
-
-            // Idx of cell in the neighbouring partition
-            Index idx{-1};
-
-            if (idx0 == 0)
-            {
-                // north border
-                if (idx1 == 0)
-                {
-                    // north-west source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::north_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // north-east source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::north_east;
-                        idx = 0;  // Whatever
-                    }
-                }
-                else
-                {
-                    // north source cell → determine destination
-                    lue_hpx_assert(offset0 == -1);
-                    direction = accu::Direction::north;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx0 == extent0 - 1)
-            {
-                // south border
-                if (idx1 == 0)
-                {
-                    // south-west source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::south_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // south-east source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::south_east;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else
-                {
-                    // south source cell → determine destination
-                    lue_hpx_assert(offset0 == 1);
-                    direction = accu::Direction::south;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx1 == 0)
-            {
-                // west source cell → determine destination
-                lue_hpx_assert(offset1 == -1);
-                direction = accu::Direction::west;
-                idx = idx0 + offset0;
-            }
-            else if (idx1 == extent1 - 1)
-            {
-                // east source cell → determine destination
-                lue_hpx_assert(offset1 == 1);
-                direction = accu::Direction::east;
-                idx = idx0 + offset0;
-            }
-
-            return std::make_tuple(direction, idx);
-        }
-
-
         template<
             typename MaterialElement,
             Rank rank>  // Remove parameter
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
index 17af9f6..b620c8f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
@@ -94,6 +94,191 @@ namespace lue {
         }
 
 
+        inline auto destination_cell(
+            Count const extent0,
+            Count const extent1,
+            Index const idx0,
+            Index const idx1,
+            Index const offset0,
+            Index const offset1) -> std::tuple<accu::Direction, Index>
+        {
+            lue_hpx_assert((idx0 == 0 || idx0 == extent0 - 1) || (idx1 == 0 || idx1 == extent1 - 1));
+            lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
+            lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
+
+            // Which neighbouring partition to send a message to
+            accu::Direction direction{};
+
+            // Idx of cell in the neighbouring partition
+            Index idx{-1};
+
+            if (extent0 == 1 || extent1 == 1)
+            {
+                // Opposite borders coincide, so the cell can drain into partitions at both sides. The
+                // partition drained into follows from the location of the destination cell.
+                bool const to_north{idx0 + offset0 < 0};
+                bool const to_south{idx0 + offset0 >= extent0};
+                bool const to_west{idx1 + offset1 < 0};
+                bool const to_east{idx1 + offset1 >= extent1};
+
+                lue_hpx_assert(to_north || to_south || to_west || to_east);
+
+                if (to_north)
+                {
+                    direction = to_west   ? accu::Direction::north_west
+                                : to_east ? accu::Direction::north_east
+                                          : accu::Direction::north;
+                    idx = idx1 + offset1;
+                }
+                else if (to_south)
+                {
+                    direction = to_west   ? accu::Direction::south_west
+                                : to_east ? accu::Direction::south_east
+                                          : accu::Direction::south;
+                    idx = idx1 + offset1;
+                }
+                else
+                {
+                    direction = to_west ? accu::Direction::west : accu::Direction::east;
+                    idx = idx0 + offset0;
+                }
+
+                return std::make_tuple(direction, idx);
+            }
+
+            if (idx0 == 0)
+            {
+                // north border
+                if (idx1 == 0)
+                {
+                    // north-west source cell → determine destination
+                    if (offset0 >= 0)
+                    {
+                        lue_hpx_assert(offset1 == -1);
+                        direction = accu::Direction::west;
+                        idx = idx0 + offset0;
+                    }
+                    else if (offset1 >= 0)
+                    {
+                        lue_hpx_assert(offset0 == -1);
+                        direction = accu::Direction::north;
+                        idx = idx1 + offset1;
+                    }
+                    else
+                    {
+                        lue_hpx_assert(offset0 == -1);
+                        lue_hpx_assert(offset1 == -1);
+                        direction = accu::Direction::north_west;
+                        idx = -1;  // Whatever
+                    }
+                }
+                else if (idx1 == extent1 - 1)
+                {
+                    // north-east source cell → determine destination
+                    if (offset0 >= 0)
+                    {
+                        lue_hpx_assert(offset1 == 1);
+                        direction = accu::Direction::east;
+                        idx = idx0 + offset0;
+                    }
+                    else if (offset1 <= 0)
+                    {
+                        lue_hpx_assert(offset0 == -1);
+                        direction = accu::Direction::north;
+                        idx = idx1 + offset1;
+                    }
+                    else
+                    {
+                        lue_hpx_assert(offset0 == -1);
+                        lue_hpx_assert(offset1 == 1);
+                        direction = accu::Direction::north_east;
+                        idx = 0;  // Whatever
+                    }
+                }
+                else
+                {
+                    // north source cell → determine destination
+                    lue_hpx_assert(offset0 == -1);
+                    direction = accu::Direction::north;
+                    idx = idx1 + offset1;
+                }
+            }
+            else if (idx0 == extent0 - 1)
+            {
+                // south border
+                if (idx1 == 0)
+                {
+                    // south-west source cell → determine destination
+                    if (offset0 <= 0)
+                    {
+                        lue_hpx_assert(offset1 == -1);
+                        direction = accu::Direction::west;
+                        idx = idx0 + offset0;
+                    }
+                    else if (offset1 >= 0)
+                    {
+                        lue_hpx_assert(offset0 == 1);
+                        direction = accu::Direction::south;
+                        idx = idx1 + offset1;
+                    }
+                    else
+                    {
+                        lue_hpx_assert(offset0 == 1);
+                        lue_hpx_assert(offset1 == -1);
+                        direction = accu::Direction::south_west;
+                        idx = -1;  // Whatever
+                    }
+                }
+                else if (idx1 == extent1 - 1)
+                {
+                    // south-east source cell → determine destination
+                    if (offset0 <= 0)
+                    {
+                        lue_hpx_assert(offset1 == 1);
+                        direction = accu::Direction::east;
+                        idx = idx0 + offset0;
+                    }
+                    else if (offset1 <= 0)
+                    {
+                        lue_hpx_assert(offset0 == 1);
+                        direction = accu::Direction::south;
+                        idx = idx1 + offset1;
+                    }
+                    else
+                    {
+                        lue_hpx_assert(offset0 == 1);
+                        lue_hpx_assert(offset1 == 1);
+                        direction = accu::Direction::south_east;
+                        idx = -1;  // Whatever
+                    }
+                }
+                else
+                {
+                    // south source cell → determine destination
+                    lue_hpx_assert(offset0 == 1);
+                    direction = accu::Direction::south;
+                    idx = idx1 + offset1;
+                }
+            }
+            else if (idx1 == 0)
+            {
+                // west source cell → determine destination
+                lue_hpx_assert(offset1 == -1);
+                direction = accu::Direction::west;
+                idx = idx0 + offset0;
+            }
+            else if (idx1 == extent1 - 1)
+            {
+                // east source cell → determine destination
+                lue_hpx_assert(offset1 == 1);
+                direction = accu::Direction::east;
+                idx = idx0 + offset0;
+            }
+
+            return std::make_tuple(direction, idx);
+        }
+
+
         template<typename Policies, typename FlowDirectionElement, Rank rank>
         hpx::tuple<
             hpx::future<std::array<std::vector<std::array<Index, rank>>, nr_neighbours<rank>()>>,
@@ -140,7 +325,32 @@ namespace lue {
                 Index idx0, idx1;
                 FlowDirectionElement flow_direction;
 
-                if (extent1 > 2)
+                if (extent0 == 1 || extent1 == 1)
+                {
+                    // Opposite borders coincide
+                    for (idx0 = 0; idx0 < extent0; ++idx0)
+                    {
+                        for (idx1 = 0; idx1 < extent1; ++idx1)
+                        {
+                            if (!indp.is_no_data(flow_direction_data, idx0, idx1))
+                            {
+                                Index offset0, offset1;
+
+                                if (!downstream_cell(
+                                        flow_direction_data, extent0, extent1, idx0, idx1, offset0, offset1))
+                                {
+                                    auto const [direction, idx] =
+                                        destination_cell(extent0, extent1, idx0, idx1, offset0, offset1);
+
+                                    output_cells_idxs[direction].push_back({idx0, idx1});
+                                    input_cell_idxs[direction].push_back(idx);
+                                }
+                            }
+                        }
+                    }
+                }
+
+                if (extent0 > 1 && extent1 > 2)
                 {
                     // North side, excluding north-west and north-east corners
                     idx0 = 0;
@@ -197,7 +407,7 @@ namespace lue {
                     }
                 }
 
-                if (extent0 > 2)
+                if (extent0 > 2 && extent1 > 1)
                 {
                     // West side, excluding north-west and south-west corners
                     idx1 = 0;
@@ -255,6 +465,7 @@ namespace lue {
                 }
 
                 // North-west corner
+                if (extent0 > 1 && extent1 > 1)
                 {
                     idx0 = 0;
                     idx1 = 0;
@@ -292,6 +503,7 @@ namespace lue {
                 }
 
                 // North-east corner
+                if (extent0 > 1 && extent1 > 1)
                 {
                     idx0 = 0;
                     idx1 = extent1 - 1;
@@ -329,6 +541,7 @@ namespace lue {
                 }
 
                 // South-east corner
+                if (extent0 > 1 && extent1 > 1)
                 {
                     idx0 = extent0 - 1;
                     idx1 = extent1 - 1;
@@ -366,6 +579,7 @@ namespace lue {
                 }
 
                 // South-west corner
+                if (extent0 > 1 && extent1 > 1)
                 {
                     idx0 = extent0 - 1;
                     idx1 = 0;
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
index 5941b1b..21a3d3d 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
@@ -46,6 +46,42 @@ namespace lue::detail {
             }
         }
 
+        if (nr_elements0 == 1 || nr_elements1 == 1)
+        {
+            // Opposite borders coincide
+            for (Index idx0 = 0; idx0 < nr_elements0; ++idx0)
+            {
+                for (Index idx1 = 0; idx1 < nr_elements1; ++idx1)
+                {
+                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
+                    {
+                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
+                    }
+                    else
+                    {
+                        Index offset0, offset1;
+
+                        if (downstream_cell(
+                                flow_direction_data,
+                                nr_elements0,
+                                nr_elements1,
+                                idx0,
+                                idx1,
+                                offset0,
+                                offset1) &&
+                            (offset0 != 0 || offset1 != 0))
+                        {
+                            lue_hpx_assert(
+                                !indp.is_no_data(flow_direction_data(idx0 + offset0, idx1 + offset1)));
+                            inflow_count_data(idx0 + offset0, idx1 + offset1) += 1;
+                        }
+                    }
+                }
+            }
+
+            return inflow_count_data;
+        }
+
         // North-west cell
         {
             Index const idx0{0};
-- 
2.43.0


From 97077446e153005efd1f6d3f89b7a1b2f3318231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 54/75] fix: Let border cells drain out of the array, whatever
 their elevation

---
 .../framework/algorithm/default_policies/d8_flow_direction.hpp  | 2 +-
 .../framework/algorithm/value_policies/d8_flow_direction.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
index ff23579..5076896 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
@@ -34,7 +34,7 @@ namespace lue {
                         DomainPolicyT<PoliciesBase>{},
                         FlowDirectionOutputPolicies{},
                         ElevationInputPolicies{FillHaloWithConstantValue<ElevationElement>{
-                            std::numeric_limits<ElevationElement>::min()}}}
+                            std::numeric_limits<ElevationElement>::lowest()}}}
 
                 {
                 }
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
index 2998c31..7a74507 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
@@ -34,7 +34,7 @@ namespace lue {
                         DomainPolicyT<PoliciesBase>{},
                         FlowDirectionOutputPolicies{},
                         ElevationInputPolicies{FillHaloWithConstantValue<ElevationElement>{
-                            std::numeric_limits<ElevationElement>::min()}}}
+                            std::numeric_limits<ElevationElement>::lowest()}}}
 
                 {
                 }
-- 
2.43.0


From bf012dfd6bf198792556697d69959011e6fdea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 55/75] fix: Don't let cells outside of the array be the focal
 maximum

---
 .../lue/framework/algorithm/default_policies/focal_maximum.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
index d7d5e3e..c5089ce 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
@@ -23,7 +23,7 @@ namespace lue {
         {
             using Policies = policy::focal_maximum::DefaultPolicies<Element>;
 
-            Element const fill_value{std::numeric_limits<Element>::min()};
+            Element const fill_value{std::numeric_limits<Element>::lowest()};
 
             return focal_maximum(Policies{fill_value}, array, kernel);
         }
-- 
2.43.0


From c0466bb8d1c1dda2cdf3d3f77707c0eeee1ea338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:34 +0000
Subject: [PATCH 56/75] fix: Give the result of array_like the localities of
 its argument

The function could not be instantiated: an array with localities is no
pointer to such an array.
---
 .../algorithm/include/lue/framework/algorithm/array_like.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
index 43a4c77..52799e9 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
@@ -119,7 +119,7 @@ namespace lue {
                 action, localities[partition_idx], policies, input_partitions[partition_idx], fill_value);
         }
 
-        return OutputArray{shape(input_array), localities, std::move(output_partitions)};
+        return {input_array, std::move(output_partitions)};
     }
 
 
-- 
2.43.0


From 139996beba6792e492b00d8e835bbf29cc90bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 57/75] fix: Determine cell indices given the extent along the
 right dimension

The index of the first cell in a partition is based on the extent of the
first partition. This extent was that along the other dimension, so
indices were wrong for partitions that are not square.
---
 .../include/lue/framework/algorithm/definition/cell_index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
index 2690cd7..1de9d0a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
@@ -72,7 +72,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<1>(partition_shape);
+                            count = std::get<0>(partition_shape);
                         }
                         else if (dimension_idx == 1)
                         {
@@ -96,7 +96,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<0>(partition_shape);
+                            count = std::get<1>(partition_shape);
                         }
 
                         IndexPartition partition{hpx::find_here(), offset, std::move(index_data)};
-- 
2.43.0


From 7b0c2d996a3ec876a9341f0e0291d84f794fbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 58/75] fix: Take the width of each partition into account when
 filling a range

The last partition of a row of partitions can be wider than the others.
---
 .../algorithm/include/lue/framework/algorithm/range.hpp    | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
index d030387..2dee1bb 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
@@ -99,8 +99,6 @@ namespace lue {
 
         std::vector<hpx::future<Shape>> partition_shapes(nr_partitions);
 
-        // TODO: We are only using the first column of partition shapes, but here we are asking for all of
-        // them
         for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
         {
             InputPartition& partition = partitions[partition_idx];
@@ -149,8 +147,7 @@ namespace lue {
 
                         for (Index idx0 = 0; idx0 < nr_partitions0; ++idx0)
                         {
-                            auto const [partition_nr_elements0, partition_nr_elements1] =
-                                partition_shapes_span[idx0, 0];
+                            auto const partition_nr_elements0 = std::get<0>(partition_shapes_span[idx0, 0]);
 
                             for (Index idx1 = 0; idx1 < nr_partitions1; ++idx1)
                             {
@@ -161,7 +158,7 @@ namespace lue {
                                 range_partitions_span[idx0, idx1] = hpx::async(
                                     action, localities(idx0, idx1), input_partition, start_value, stride);
 
-                                start_value += partition_nr_elements1;
+                                start_value += std::get<1>(partition_shapes_span[idx0, idx1]);
                             }
 
                             start_value += (partition_nr_elements0 - 1) * stride;
-- 
2.43.0


From c6a50f569e94c035267ba7f5d91e3450e4224452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 59/75] fix: Let unknown or invalid arguments of uniform and
 normal result in no-data

The overloads that do not take an array ignored (some of) the policies.
A standard deviation that is not positive is not within the domain, and
must not be passed to std::normal_distribution.
---
 .../framework/algorithm/definition/normal.hpp | 45 +++++++++++-----
 .../algorithm/definition/uniform.hpp          | 54 ++++++++++++-------
 2 files changed, 67 insertions(+), 32 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/normal.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/normal.hpp
index 495115a..bae22f2 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/normal.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/normal.hpp
@@ -193,13 +193,15 @@ namespace lue {
             hpx::unwrapping(
                 [policies](Element const& mean, Element const& stddev) -> Element
                 {
+                    auto const& dp = policies.domain_policy();
                     auto const& indp1 = std::get<0>(policies.inputs_policies()).input_no_data_policy();
                     auto const& indp2 = std::get<1>(policies.inputs_policies()).input_no_data_policy();
                     auto const& ondp = std::get<0>(policies.outputs_policies()).output_no_data_policy();
 
                     Element output_element{};
 
-                    if (indp1.is_no_data(mean) || indp2.is_no_data(stddev))
+                    if (indp1.is_no_data(mean) || indp2.is_no_data(stddev) ||
+                        !dp.within_domain(mean, stddev))
                     {
                         ondp.mark_no_data(output_element);
                     }
@@ -232,7 +234,7 @@ namespace lue {
 
         template<typename Policies, Rank rank>
         auto normal_partition(
-            [[maybe_unused]] Policies const& policies,
+            Policies const& policies,
             Offset<Index, rank> const& offset,
             Shape<Count, rank> const& partition_shape,
             policy::InputElementT<Policies, 0> const mean,
@@ -247,22 +249,39 @@ namespace lue {
 
             PartitionData partition_data{partition_shape};
 
-            // Will be used to obtain a seed for the random number engine
-            std::random_device random_device;
+            auto const& dp = policies.domain_policy();
+            auto const& indp1 = std::get<0>(policies.inputs_policies()).input_no_data_policy();
+            auto const& indp2 = std::get<1>(policies.inputs_policies()).input_no_data_policy();
+            auto const& ondp = std::get<0>(policies.outputs_policies()).output_no_data_policy();
 
-            // Standard mersenne_twister_engine seeded with the random_device
-            std::mt19937 random_number_engine(random_device());
+            if (indp1.is_no_data(mean) || indp2.is_no_data(stddev) || !dp.within_domain(mean, stddev))
+            {
+                Count const nr_elements{lue::nr_elements(partition_data)};
 
-            auto distribution = std::normal_distribution<Element>{mean, stddev};
+                for (Index i = 0; i < nr_elements; ++i)
+                {
+                    ondp.mark_no_data(partition_data, i);
+                }
+            }
+            else
+            {
+                // Will be used to obtain a seed for the random number engine
+                std::random_device random_device;
+
+                // Standard mersenne_twister_engine seeded with the random_device
+                std::mt19937 random_number_engine(random_device());
 
-            std::generate(
-                partition_data.begin(),
-                partition_data.end(),
+                auto distribution = std::normal_distribution<Element>{mean, stddev};
 
-                [&distribution, &random_number_engine]() -> auto
-                { return distribution(random_number_engine); }
+                std::generate(
+                    partition_data.begin(),
+                    partition_data.end(),
 
-            );
+                    [&distribution, &random_number_engine]() -> auto
+                    { return distribution(random_number_engine); }
+
+                );
+            }
 
             return Partition{hpx::find_here(), offset, std::move(partition_data)};
         }
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/uniform.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/uniform.hpp
index 0d216a9..d849d91 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/uniform.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/uniform.hpp
@@ -259,7 +259,7 @@ namespace lue {
 
         template<typename Policies, Rank rank>
         auto uniform_partition(
-            [[maybe_unused]] Policies const& policies,
+            Policies const& policies,
             OffsetT<ArrayPartition<policy::OutputElementT<Policies, 0>, rank>> const& offset,
             ShapeT<ArrayPartition<policy::OutputElementT<Policies, 0>, rank>> const& partition_shape,
             policy::InputElementT<Policies, 0> const min_value,
@@ -274,32 +274,48 @@ namespace lue {
 
             PartitionData partition_data{partition_shape};
 
-            // Will be used to obtain a seed for the random number engine
-            std::random_device random_device;
-
-            // Standard mersenne_twister_engine seeded with the random_device
-            std::mt19937 random_number_engine(random_device());
+            auto const& indp1 = std::get<0>(policies.inputs_policies()).input_no_data_policy();
+            auto const& indp2 = std::get<1>(policies.inputs_policies()).input_no_data_policy();
+            auto const& ondp = std::get<0>(policies.outputs_policies()).output_no_data_policy();
 
-            auto distribution = [min_value, max_value]()
+            if (indp1.is_no_data(min_value) || indp2.is_no_data(max_value))
             {
-                if constexpr (std::is_floating_point_v<Element>)
+                Count const nr_elements{lue::nr_elements(partition_data)};
+
+                for (Index i = 0; i < nr_elements; ++i)
                 {
-                    // [min, max)
-                    return std::uniform_real_distribution<Element>{min_value, max_value};
+                    ondp.mark_no_data(partition_data, i);
                 }
-                else if constexpr (std::is_integral_v<Element>)
+            }
+            else
+            {
+                // Will be used to obtain a seed for the random number engine
+                std::random_device random_device;
+
+                // Standard mersenne_twister_engine seeded with the random_device
+                std::mt19937 random_number_engine(random_device());
+
+                auto distribution = [min_value, max_value]()
                 {
-                    return std::uniform_int_distribution<Element>{min_value, max_value};
-                }
-            }();
+                    if constexpr (std::is_floating_point_v<Element>)
+                    {
+                        // [min, max)
+                        return std::uniform_real_distribution<Element>{min_value, max_value};
+                    }
+                    else if constexpr (std::is_integral_v<Element>)
+                    {
+                        return std::uniform_int_distribution<Element>{min_value, max_value};
+                    }
+                }();
 
-            std::generate(
-                partition_data.begin(),
-                partition_data.end(),
+                std::generate(
+                    partition_data.begin(),
+                    partition_data.end(),
 
-                [&distribution, &random_number_engine]() { return distribution(random_number_engine); }
+                    [&distribution, &random_number_engine]() { return distribution(random_number_engine); }
 
-            );
+                );
+            }
 
             return {hpx::find_here(), offset, std::move(partition_data)};
         }
-- 
2.43.0


From 6e16d6c6ea818fad06a7ec5acf38f13f7b426002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 60/75] fix: Let normal be used with default policies and an
 array

The domain policy was given the standard deviation and mean only, but
expected a value of the array too.
---
 .../include/lue/framework/algorithm/default_policies/normal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/normal.hpp b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/normal.hpp
index 0286511..f743c9f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/normal.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/normal.hpp
@@ -9,7 +9,7 @@ namespace lue {
         // relevant. These have the same element type as the output element.
         template<std::floating_point Element, Arithmetic... SomeElement>
         using DefaultPolicies = policy::DefaultPolicies<
-            AllValuesWithinDomain<SomeElement..., Element, Element>,
+            AllValuesWithinDomain<Element, Element>,
             OutputElements<Element>,
             InputElements<SomeElement..., Element, Element>>;
 
-- 
2.43.0


From ab1388db695d3ab8b1e2b09ac34ff7acf7b5dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 61/75] fix: Don't assume that the partitions with clumps have
 been created already

---
 .../include/lue/framework/algorithm/definition/clump.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index 35eb33e..c88959a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1925,7 +1925,8 @@ namespace lue {
                             auto partition{local_result.partition()};
                             auto lut{local_result.lut()};
 
-                            lue_hpx_assert(partition.is_ready());
+                            // The component may still be in the process of being created
+                            partition.wait();
 
                             clump_partition_promises[partition_idx].set_value(
                                 Partition{hpx::async(
-- 
2.43.0


From d9120db4126b988ae507a6d18e5880b44a7ab0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 62/75] fix: Merge clumps that are only connected through other
 clumps

---
 .../include/lue/framework/algorithm/definition/clump.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index c88959a..1a8cd9b 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1819,6 +1819,10 @@ namespace lue {
                                                 global_clump_ids_updates.find(idx2) ==
                                                 global_clump_ids_updates.end());
                                             global_clump_ids_updates[idx2] = idx1;
+
+                                            // The union can share elements with collections that have
+                                            // already been visited. Visit these again.
+                                            idx2 = idx1;
                                         }
                                     }
                                 }
-- 
2.43.0


From d8e44ff7dbb2d0113b3dfca8accaf74ab81e6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:12 +0000
Subject: [PATCH 63/75] fix: Copy the right cells to target partitions when the
 last source partition is larger

---
 .../algorithm/definition/resample.hpp         | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
index 0e3e18c..3bd2cc2 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
@@ -234,27 +234,18 @@ namespace lue {
                     // contributes to the values of multiple target cells. Determine the offset and shape of
                     // the source cells that must be assigned to the cells in the target partition.
 
-                    Offset source_area_offset{
-                        (std::get<0>(target_partition_offset) / _count) % std::get<0>(_partition_shape),
-                        (std::get<1>(target_partition_offset) / _count) % std::get<1>(_partition_shape)};
-
-                    // Careful: in case of the last row and column, partition shapes may differ. Only in those
-                    // cases, we need to test the special situation that we need to query outside of the
-                    // normal partition bounds. For example, if the partition shape is (3, 3), then a last
-                    // partition in a row may have shape (3, 5). Without doing the following test, we would
-                    // copy the wrong source values (starting at offset (0, 0), while instead we should be
-                    // copying those starting at (0, 3).
-                    if (std::get<0>(target_partition_shape) != std::get<0>(_partition_shape) &&
-                        std::get<0>(source_area_offset) == 0)
-                    {
-                        std::get<0>(source_area_offset) = std::get<0>(_partition_shape);
-                    }
-
-                    if (std::get<1>(target_partition_shape) != std::get<1>(_partition_shape) &&
-                        std::get<1>(source_area_offset) == 0)
-                    {
-                        std::get<1>(source_area_offset) = std::get<1>(_partition_shape);
-                    }
+                    // Careful: the shape of the partitions in the last row and column may differ from the
+                    // normal partition shape. The offset must be relative to the first cell of the source
+                    // partition. Since all preceding partitions have the normal shape, the offset of that
+                    // first cell only depends on the idxs of the source partition.
+                    auto const [source_partition_idx0, source_partition_idx1] =
+                        linear_idx_to_idxs(source_partition_idx, _partitions.shape());
+
+                    Offset const source_area_offset{
+                        std::get<0>(target_partition_offset) / _count -
+                            source_partition_idx0 * std::get<0>(_partition_shape),
+                        std::get<1>(target_partition_offset) / _count -
+                            source_partition_idx1 * std::get<1>(_partition_shape)};
 
                     // To only thing the task needs to do is copy cells from the source area, starting at the
                     // offset, into the new partition, assigning source cell values to multiple target
-- 
2.43.0


From 293bb4e4817713e1c6928c8cfa77ab252fe8adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 64/75] fix: close the LUE dataset before telling that it is
 closed

---
 .../io/include/lue/framework/io/from_lue.hpp  | 54 ++++++++--------
 .../io/include/lue/framework/io/to_lue.hpp    | 62 ++++++++++---------
 2 files changed, 60 insertions(+), 56 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index b108477..7c9bc09 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -201,35 +201,37 @@ namespace lue {
                     // Done with the collective call
                     from_lue_open_dataset_p.set_value();
 
-                    // Open phenomenon
-                    auto const& phenomenon{dataset.phenomena()[phenomenon_name]};
+                    {
+                        // Open phenomenon
+                        auto const& phenomenon{dataset.phenomena()[phenomenon_name]};
 
-                    // Open property-set
-                    auto const& property_set{phenomenon.property_sets()[property_set_name]};
+                        // Open property-set
+                        auto const& property_set{phenomenon.property_sets()[property_set_name]};
 
-                    // Open property
-                    lue_hpx_assert(property_set.properties().contains(property_name));
-                    lue_hpx_assert(
-                        property_set.properties().shape_per_object(property_name) ==
-                        data_model::ShapePerObject::different);
-                    lue_hpx_assert(
-                        property_set.properties().value_variability(property_name) ==
-                        data_model::ValueVariability::constant);
-                    using Properties = data_model::different_shape::Properties;
-                    auto const& property{property_set.properties().collection<Properties>()[property_name]};
+                        // Open property
+                        lue_hpx_assert(property_set.properties().contains(property_name));
+                        lue_hpx_assert(
+                            property_set.properties().shape_per_object(property_name) ==
+                            data_model::ShapePerObject::different);
+                        lue_hpx_assert(
+                            property_set.properties().value_variability(property_name) ==
+                            data_model::ValueVariability::constant);
+                        using Properties = data_model::different_shape::Properties;
+                        auto const& property{property_set.properties().collection<Properties>()[property_name]};
 
-                    // constant: data_model::different_shape::Value
-                    auto const& value{property.value()};
+                        // constant: data_model::different_shape::Value
+                        auto const& value{property.value()};
 
-                    // constant: data_model::Array: hdf5::Dataset
-                    auto array{value[object_id]};
+                        // constant: data_model::Array: hdf5::Dataset
+                        auto array{value[object_id]};
 
-                    auto create_hyperslab =
-                        [array_hyperslab_start](PartitionServer const& partition_server) -> auto
-                    { return hyperslab(array_hyperslab_start, partition_server); };
+                        auto create_hyperslab =
+                            [array_hyperslab_start](PartitionServer const& partition_server) -> auto
+                        { return hyperslab(array_hyperslab_start, partition_server); };
 
-                    // Synchronous
-                    read_partitions(policies, array, create_hyperslab, partitions);
+                        // Synchronous
+                        read_partitions(policies, array, create_hyperslab, partitions);
+                    }
 
                     // Closing a dataset is a collective operation: only close the dataset (let it go out
                     // of scope) when it is our turn to do so.
@@ -247,7 +249,7 @@ namespace lue {
                             -> Partitions
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             from_lue_close_dataset_p.set_value();
                             return partitions;
                         });
@@ -418,7 +420,7 @@ namespace lue {
                         lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -446,7 +448,7 @@ namespace lue {
                                     -> auto
                                 {
                                     // The dataset must go out of scope before we set the promise's value
-                                    [](auto&& dataset) -> auto
+                                    [](auto dataset) -> auto
                                     {
                                         HPX_UNUSED(dataset);
                                         // dataset.flush();
diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index 5ce5ab6..ef2f18f 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -265,40 +265,42 @@ namespace lue {
                     // Open the dataset once the first partition is ready to be written
                     auto dataset = open_dataset(dataset_path.string(), H5F_ACC_RDWR);
 
-                    // Open phenomenon
-                    auto& phenomenon{dataset.phenomena()[phenomenon_name]};
+                    {
+                        // Open phenomenon
+                        auto& phenomenon{dataset.phenomena()[phenomenon_name]};
 
-                    // Open property-set
-                    auto& property_set{phenomenon.property_sets()[property_set_name]};
+                        // Open property-set
+                        auto& property_set{phenomenon.property_sets()[property_set_name]};
 
-                    // Open property
-                    lue_hpx_assert(property_set.properties().contains(property_name));
-                    lue_hpx_assert(
-                        property_set.properties().shape_per_object(property_name) ==
-                        data_model::ShapePerObject::different);
-                    lue_hpx_assert(
-                        property_set.properties().value_variability(property_name) ==
-                        data_model::ValueVariability::constant);
-                    using Properties = data_model::different_shape::Properties;
-                    // data_model::different_shape::Property
-                    auto& property{property_set.properties().collection<Properties>()[property_name]};
+                        // Open property
+                        lue_hpx_assert(property_set.properties().contains(property_name));
+                        lue_hpx_assert(
+                            property_set.properties().shape_per_object(property_name) ==
+                            data_model::ShapePerObject::different);
+                        lue_hpx_assert(
+                            property_set.properties().value_variability(property_name) ==
+                            data_model::ValueVariability::constant);
+                        using Properties = data_model::different_shape::Properties;
+                        // data_model::different_shape::Property
+                        auto& property{property_set.properties().collection<Properties>()[property_name]};
 
-                    // constant: data_model::different_shape::Value
-                    auto const& value{property.value()};
+                        // constant: data_model::different_shape::Value
+                        auto const& value{property.value()};
 
-                    // constant: data_model::Array: hdf5::Dataset
-                    auto array{value[object_id]};
+                        // constant: data_model::Array: hdf5::Dataset
+                        auto array{value[object_id]};
 
-                    // Done with the collective calls. Note that H5DOpen is collective in case of write.
-                    // Writing partitions can happen independently now.
-                    to_lue_open_dataset_p.set_value();
+                        // Done with the collective calls. Note that H5DOpen is collective in case of write.
+                        // Writing partitions can happen independently now.
+                        to_lue_open_dataset_p.set_value();
 
-                    auto create_hyperslab =
-                        [array_hyperslab_start](PartitionServer const& partition_server) -> auto
-                    { return hyperslab(array_hyperslab_start, partition_server); };
+                        auto create_hyperslab =
+                            [array_hyperslab_start](PartitionServer const& partition_server) -> auto
+                        { return hyperslab(array_hyperslab_start, partition_server); };
 
-                    // Synchronous
-                    write_partitions(policies, partitions, create_hyperslab, array);
+                        // Synchronous
+                        write_partitions(policies, partitions, create_hyperslab, array);
+                    }
 
                     // Closing a dataset is a collective operation: only close the dataset (let it go out
                     // of scope) when it is our turn to do so.
@@ -315,7 +317,7 @@ namespace lue {
                             [[maybe_unused]] auto const& close_for_read_file_predecessor_f) mutable -> auto
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             to_lue_close_dataset_p.set_value();
                         });
                 },
@@ -518,7 +520,7 @@ namespace lue {
                         lue_hpx_assert(to_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -545,7 +547,7 @@ namespace lue {
                                 -> auto
                             {
                                 // The dataset must go out of scope before we set the promise's value
-                                [](auto&& dataset) -> auto
+                                [](auto dataset) -> auto
                                 {
                                     HPX_UNUSED(dataset);
                                     // dataset.flush();
-- 
2.43.0


From 3ec0ab47e07e6368b24705dcfc572f7c91e794e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 65/75] fix: don't assert that reads from a LUE dataset finish
 in the order in which they were started

---
 source/framework/io/include/lue/framework/io/from_lue.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 7c9bc09..3c85701 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -416,8 +416,7 @@ namespace lue {
 
                     if constexpr (serial_io)
                     {
-                        // No reason to go async. Any predecessor is done already.
-                        lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
+                        // No reason to go async. Closing after a read does not have to be ordered.
 
                         // The dataset must go out of scope before we set the promise's value
                         [](auto dataset) -> auto
-- 
2.43.0


From 0cbeac2c84e4c1fe174c5950d794a2be42170547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 66/75] fix: make to_lue wait for all previous calls to
 from_lue, not just the last one

---
 .../io/include/lue/framework/io/from_lue.hpp       | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 3c85701..5385dfa 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -630,10 +630,14 @@ namespace lue {
 
             if constexpr (serial_io)
             {
+                // Previous reads may still be in progress
                 detail::add_from_lue_finished(
                     dataset_path,
                     from_lue_order,
-                    hpx::when_all(array.partitions().begin(), array.partitions().end()).share());
+                    hpx::when_all(
+                        detail::from_lue_finished(dataset_path, from_lue_order - 1),
+                        hpx::when_all(array.partitions().begin(), array.partitions().end()))
+                        .share());
             }
 
             return array;
@@ -811,8 +815,14 @@ namespace lue {
 
             if constexpr (serial_io)
             {
+                // Previous reads may still be in progress
                 detail::add_from_lue_finished(
-                    dataset_path, from_lue_order, hpx::when_all(dataset_closed_fs).share());
+                    dataset_path,
+                    from_lue_order,
+                    hpx::when_all(
+                        detail::from_lue_finished(dataset_path, from_lue_order - 1),
+                        hpx::when_all(dataset_closed_fs))
+                        .share());
             }
 
             return array;
-- 
2.43.0


From 6d1be5ad3ee366671dedc9eda6501fff472888f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 67/75] fix: don't keep the partitions read from a LUE dataset
 alive

---
 source/framework/io/include/lue/framework/io/from_lue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 5385dfa..d23df46 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -630,13 +630,14 @@ namespace lue {
 
             if constexpr (serial_io)
             {
-                // Previous reads may still be in progress
+                // Previous reads may still be in progress. Don't keep the partitions alive.
                 detail::add_from_lue_finished(
                     dataset_path,
                     from_lue_order,
                     hpx::when_all(
                         detail::from_lue_finished(dataset_path, from_lue_order - 1),
                         hpx::when_all(array.partitions().begin(), array.partitions().end()))
+                        .then([]([[maybe_unused]] auto&& finished_f) -> void {})
                         .share());
             }
 
-- 
2.43.0


From 2d76c5d6425b9f5ae074e449a96f9863b95ec12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 68/75] fix: wait for pending writes before opening a LUE
 dataset to get the shape of an array

---
 .../io/include/lue/framework/io/from_lue.hpp    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index d23df46..f9dbcd9 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -830,6 +830,19 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Wait until all calls to to_lue to the dataset have finished
+
+            An HDF5 file can't be opened for writing while it is open for reading.
+        */
+        inline void wait_for_to_lue([[maybe_unused]] std::filesystem::path const& dataset_path)
+        {
+#ifndef LUE_FRAMEWORK_WITH_PARALLEL_IO
+            to_lue_finished(dataset_path, current_to_lue_order(dataset_path)).wait();
+#endif
+        }
+
+
         template<typename Shape>
         auto constant_array_shape(std::string const& array_pathname) -> Shape
         {
@@ -842,6 +855,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::constant::RasterView<DatasetPtr>;
 
+            wait_for_to_lue(normalize(dataset_pathname));
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
@@ -872,6 +887,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::variable::RasterView<DatasetPtr>;
 
+            wait_for_to_lue(normalize(dataset_pathname));
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
-- 
2.43.0


From f1e69a50f8a06e0dd7041ea1bd8f5966968cca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:35 +0000
Subject: [PATCH 69/75] fix: translate the right cells of GDAL rasters that
 don't fit in a single block

---
 .../translate/source/format/gdal.cpp          | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 1e0d2c7..eee4f46 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -28,7 +28,7 @@ namespace lue::utility {
             block_size_x = std::min(block_size_x, nr_cols);
             block_size_y = std::min(block_size_y, nr_rows);
 
-            return {{nr_cols, nr_rows}, {block_size_x, block_size_y}};
+            return {{nr_rows, nr_cols}, {block_size_y, block_size_x}};
         }
 
 
@@ -197,8 +197,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
 
                 // hdf5::Shape const shape = {
@@ -219,7 +219,11 @@ namespace lue::utility {
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 value.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    raster_band.data_type(),
+                    values.data());
             }
         }
     }
@@ -297,8 +301,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
                 hdf5::Offset offset{
                     static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
@@ -309,7 +313,11 @@ namespace lue::utility {
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 array.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    raster_band.data_type(),
+                    values.data());
             }
         }
     }
@@ -855,8 +863,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
                 hdf5::Offset offset{
                     static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
@@ -866,7 +874,11 @@ namespace lue::utility {
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_x)};
                 hdf5::Hyperslab hyperslab{offset, count};
 
-                gdal_raster_band.read_block({block_y, block_x}, values.data());
+                gdal_raster_band.read(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    gdal_raster_band.data_type(),
+                    values.data());
                 hdf5::Shape const shape = {
                     static_cast<hdf5::Shape::value_type>(nr_valid_cells_x * nr_valid_cells_y)};
                 auto memory_dataspace = hdf5::create_dataspace(shape);
-- 
2.43.0


From 79fa2696e7e84c247e45d83abba6e8ab73cefb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:35 +0000
Subject: [PATCH 70/75] fix: open existing dataset for writing when adding GDAL
 rasters

---
 source/data_model/translate/source/format/gdal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index eee4f46..93e4955 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -996,7 +996,7 @@ namespace lue::utility {
                 throw std::runtime_error(std::format("Dataset {} already exists", lue_dataset_name));
             }
 
-            return ldm::open_dataset(lue_dataset_name);
+            return ldm::open_dataset(lue_dataset_name, H5F_ACC_RDWR);
         };
 
         ldm::Dataset dataset{!ldm::dataset_exists(lue_dataset_name) ? create_dataset() : open_dataset()};
-- 
2.43.0


From 832bad3677b7cd5759e1b7c53e4d854d67f3c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:35 +0000
Subject: [PATCH 71/75] fix: export layers of 8 bit signed integers to GDAL
 rasters

---
 source/data_model/translate/source/format/gdal.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 93e4955..c86f1ec 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -241,6 +241,10 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(value, time_point_idx, time_step_idx, raster_band);
         }
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(value, time_point_idx, time_step_idx, raster_band);
+        }
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(value, time_point_idx, time_step_idx, raster_band);
@@ -331,6 +335,10 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(array, raster_band);
         }
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(array, raster_band);
+        }
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(array, raster_band);
-- 
2.43.0


From 9763e29f42542b56fe27a8331a2a721137cab2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:41 +0000
Subject: [PATCH 72/75] fix: export all bands asked for to a GDAL raster, not
 just the first one

---
 .../translate/source/format/gdal.cpp          | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index c86f1ec..3a49189 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -463,27 +463,23 @@ namespace lue::utility {
             raster.set_geo_transform(geo_transform);
 
             gdal::Count band_nr{1};
-            gdal::Raster::Band raster_band{raster.band(band_nr)};
-            lue_to_gdal(layer, raster_band);
 
+            for (; it != bands_json.end(); ++it, ++band_nr)
+            {
+                auto const band_name = json::string(*it, "name");
 
-            // TODO
-            // for (; it != bands_json.end(); ++it, ++band_nr)
-            // {
-            //     auto const property_name = json::string(*it, "name");
-
-            //     if (!raster_view.contains(property_name))
-            //     {
-            //         throw std::runtime_error(std::format(
-            //             "Constant raster layer named {} is not part of property_set {}",
-            //             property_name,
-            //             property_set_name));
-            //     }
-
-            //     gdal::Raster::Band raster_band{raster.band(band_nr)};
-
-            //     lue_to_gdal(layer, raster_band);
-            // }
+                if (!raster_view.contains(band_name))
+                {
+                    throw std::runtime_error(
+                        std::format(
+                            "Constant raster layer named {} is not part of property_set {}",
+                            band_name,
+                            property_set_name));
+                }
+
+                gdal::Raster::Band raster_band{raster.band(band_nr)};
+                lue_to_gdal(raster_view.layer(band_name), raster_band);
+            }
         }
         // If the variable raster view finds a raster layer with the property
         // name requested, export it to a stack of GDAL rasters
-- 
2.43.0


From a1cc692214b82d9f6d864f393d6beca5fe027acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 73/75] fix: add either all objects or none when making space
 for arrays with shapes passed as extents

---
 .../cxx/source/array/different_shape/value.cpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 2be8f18..151af5e 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -89,16 +89,16 @@ namespace lue::data_model::different_shape {
     void Value::expand(Count const nr_objects, ID const* ids, hdf5::Shape::value_type const* shapes)
     {
         Rank const rank{this->rank()};
+        std::vector<hdf5::Shape> shapes_per_object{};
+        shapes_per_object.reserve(nr_objects);
 
-        for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
+        for (Index object_idx = 0; object_idx < nr_objects; ++object_idx, shapes += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
+            shapes_per_object.emplace_back(shapes, shapes + rank);
         }
 
-        _nr_objects += nr_objects;
-
-        attributes().write<Count>(nr_objects_tag, _nr_objects);
+        expand(nr_objects, ids, shapes_per_object.data());
     }
 
 
-- 
2.43.0


From 1354ebcdd69f6999ae8e90cb20c64af27bf316c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:54 +0000
Subject: [PATCH 74/75] fix: don't exceed the rate limit by one at the start of
 a simulation

---
 .../framework/model/include/lue/framework/model/simulate.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index 1d6db88..d838fc6 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -76,7 +76,9 @@ namespace lue {
         rate_limit -= 1;  // Otherwise we get rate_limit + 1 time steps in flight
 
         std::int64_t const max_difference{rate_limit};
-        hpx::sliding_semaphore semaphore{max_difference, first_time_step};
+
+        // None of the time steps has finished yet
+        hpx::sliding_semaphore semaphore{max_difference, first_time_step - 1};
 
         // A type to represent the simulation's "state" after a single time step. It is assumed that once this
         // state becomes ready, that the tasks for the corresponding time step have all finished.
-- 
2.43.0


From e84f081faa38e311bedc6ca17310f1f401b82459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:04 +0000
Subject: [PATCH 75/75] fix: wait for started time steps when a simulation
 fails

---
 .../include/lue/framework/model/simulate.hpp  | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index d838fc6..40092e6 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -3,6 +3,7 @@
 #include "lue/framework/core/define.hpp"
 #include <hpx/future.hpp>
 #include <hpx/synchronization/sliding_semaphore.hpp>
+#include <exception>
 
 
 namespace lue {
@@ -84,8 +85,11 @@ namespace lue {
         // state becomes ready, that the tasks for the corresponding time step have all finished.
         using State = hpx::shared_future<void>;
 
+        State previous_state{hpx::make_ready_future<void>()};
+        std::exception_ptr exception{};
+
+        try
         {
-            State previous_state{hpx::make_ready_future<void>()};
             Count current_time_step{first_time_step};
 
             for (Index time_step_idx = 0; time_step_idx < nr_time_steps; ++time_step_idx, ++current_time_step)
@@ -102,17 +106,23 @@ namespace lue {
                 semaphore.wait(current_time_step);
 
                 simulate(progressor, current_time_step);
-
-                if (current_time_step == last_time_step)
-                {
-                    // This will make sure this function does not return before the last state is
-                    // ready. Returning too early results in dangling references to the semaphore.
-                    // Wait explicitly here, because the semaphore only waits conditionally. The
-                    // last state may or may not be ready already.
-                    previous_state.wait();
-                }
             }
         }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
+
+        // This will make sure this function does not return before the last state is ready, also when an
+        // exception is thrown. Returning too early results in dangling references to the semaphore. Wait
+        // explicitly here, because the semaphore only waits conditionally. The last state may or may not be
+        // ready already.
+        previous_state.wait();
+
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
     }
 
 
-- 
2.43.0

