// Everything an HDF5 file contains, obtained through the C API of HDF5 itself, not through LUE.
#pragma once
#include <hdf5.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace snapshot {

    // Path -> description of the object, link or attribute there
    using Content = std::map<std::string, std::string>;

    inline auto to_hex(void const* data, std::size_t n) -> std::string
    {
        static char const digits[] = "0123456789abcdef";
        auto const* b = static_cast<unsigned char const*>(data);
        std::string r;
        r.reserve(2 * n);
        for (std::size_t i = 0; i < n; ++i)
        {
            r += digits[b[i] >> 4];
            r += digits[b[i] & 15];
        }
        return r;
    }

    inline auto type_text(hid_t const type) -> std::string
    {
        std::size_t n = 0;
        H5Tencode(type, nullptr, &n);
        std::vector<unsigned char> b(n);
        if (n) H5Tencode(type, b.data(), &n);
        return to_hex(b.data(), n);
    }

    inline auto space_text(hid_t const space) -> std::string
    {
        std::string r = "(";
        hsize_t dims[32]{}, max[32]{};
        int const n = H5Sget_simple_extent_dims(space, dims, max);
        for (int i = 0; i < n; ++i)
        {
            r += std::to_string(dims[i]) + "/" + std::to_string(max[i]) + " ";
        }
        return r + ")";
    }

    template<typename Read>
    auto value_text(hid_t const type, hid_t const space, Read&& read) -> std::string
    {
        auto const n = static_cast<std::size_t>(std::max<hssize_t>(H5Sget_simple_extent_npoints(space), 0));
        if (H5Tis_variable_str(type) > 0)
        {
            std::vector<char*> values(n + 1, nullptr);
            if (n && read(values.data()) < 0) return "unreadable";
            std::string r;
            for (std::size_t i = 0; i < n; ++i)
            {
                r += values[i] == nullptr ? "null" : to_hex(values[i], std::strlen(values[i]));
                r += ' ';
                if (values[i] != nullptr) H5free_memory(values[i]);
            }
            return r;
        }
        std::vector<unsigned char> b(n * H5Tget_size(type) + 1);
        if (n && read(b.data()) < 0) return "unreadable";
        return to_hex(b.data(), n * H5Tget_size(type));
    }

    inline auto add_attribute(hid_t const location, char const* name, H5A_info_t const*, void* data) -> herr_t
    {
        auto& p = *static_cast<std::pair<Content*, std::string>*>(data);
        hid_t const attribute = H5Aopen(location, name, H5P_DEFAULT);
        hid_t const type = H5Aget_type(attribute), space = H5Aget_space(attribute);
        (*p.first)[p.second + "@" + name] =
            "attribute " + type_text(type) + " " + space_text(space) + " " + value_text(type, space, [&](void* b) { return H5Aread(attribute, type, b); });
        H5Sclose(space);
        H5Tclose(type);
        H5Aclose(attribute);
        return 0;
    }

    inline auto add_link(hid_t location, char const* name, H5L_info_t const* info, void* data) -> herr_t;

    inline void add_object(hid_t const object, std::string const& path, Content& content)
    {
        std::pair<Content*, std::string> p{&content, path};
        H5Aiterate2(object, H5_INDEX_NAME, H5_ITER_NATIVE, nullptr, add_attribute, &p);
        switch (H5Iget_type(object))
        {
            case H5I_GROUP: case H5I_FILE:
                content[path] = "group";
                H5Literate(object, H5_INDEX_NAME, H5_ITER_NATIVE, nullptr, add_link, &p);
                break;
            case H5I_DATASET:
            {
                hid_t const type = H5Dget_type(object), space = H5Dget_space(object);
                content[path] = "dataset " + type_text(type) + " " + space_text(space) + " " +
                                value_text(type, space, [&](void* b) { return H5Dread(object, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, b); });
                H5Sclose(space);
                H5Tclose(type);
                break;
            }
            default: content[path] = "other"; break;
        }
    }

    inline auto add_link(hid_t const location, char const* name, H5L_info_t const* info, void* data) -> herr_t
    {
        auto& p = *static_cast<std::pair<Content*, std::string>*>(data);
        std::string const path = p.second + "/" + name;
        if (info->type == H5L_TYPE_SOFT)
        {
            std::vector<char> target(info->u.val_size + 1);
            H5Lget_val(location, name, target.data(), target.size(), H5P_DEFAULT);
            (*p.first)[path] = std::string("link ") + target.data();
        }
        else
        {
            hid_t const object = H5Oopen(location, name, H5P_DEFAULT);
            if (object < 0)
            {
                (*p.first)[path] = "cannot be opened";
                return 0;
            }
            add_object(object, path, *p.first);
            H5Oclose(object);
        }
        return 0;
    }

    inline auto of(hid_t const object) -> Content
    {
        Content r;
        add_object(object, "", r);
        return r;
    }

    inline auto of_file(std::string const& path) -> Content
    {
        hid_t const file = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (file < 0) return {{"", "cannot be opened"}};
        auto r = of(file);
        H5Fclose(file);
        return r;
    }

    // First difference, or an empty string
    inline auto difference(Content const& before, Content const& after) -> std::string
    {
        for (auto const& [k, v] : before)
        {
            auto const it = after.find(k);
            if (it == after.end()) return k + " is gone";
            if (it->second != v) return k + " changed from " + v.substr(0, 200) + " to " + it->second.substr(0, 200);
        }
        for (auto const& [k, v] : after)
        {
            if (before.find(k) == before.end()) return k + " is new";
        }
        return {};
    }

}  // namespace snapshot
