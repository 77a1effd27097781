// Reference model of a same_shape::Value or same_shape::constant_shape::Value: N arrays of a fixed shape.
#pragma once
#include "dm.hpp"

namespace dm {

    struct Series
    {
            ElementType const* type;
            lh5::Shape shape;
            std::size_t nr{0};
            Bytes bytes;
            std::vector<char> known;  // Per element

            auto per_array() const -> std::size_t { return product(shape); }

            template<typename Value>
            void expand(vh::Case& c, Value& value, std::string const& what)
            {
                auto const n = c.rng.range(0, 8);
                c.op("expand", std::format("{} {}", what, n));
                value.expand(n);
                nr += n;
                bytes.resize(nr * per_array() * type->size);
                known.resize(nr * per_array());
            }

            // Random whole, single or range write. elements(n) makes n elements
            template<typename Value, typename Elements>
            void write(vh::Case& c, Value& value, std::string const& what, Elements&& elements)
            {
                if (nr == 0) return;
                auto const how = c.rng.below(3);
                std::size_t begin = 0, end = nr;
                if (how == 1)
                {
                    begin = c.rng.below(nr);
                    end = begin + 1;
                }
                else if (how == 2)
                {
                    begin = c.rng.below(nr + 1);
                    end = c.rng.range(begin, nr);
                }
                c.op("write", std::format("{} [{},{})", what, begin, end));
                Bytes const data = elements((end - begin) * per_array());
                Buffer buffer{data};
                if (how == 0) value.write(buffer.data());
                else if (how == 1) value.write(begin, buffer.data());
                else value.write(ldm::IndexRange{begin, end}, buffer.data());
                std::size_t const from = begin * per_array();
                std::copy(data.begin(), data.end(), bytes.begin() + from * type->size);
                std::fill(known.begin() + from, known.begin() + end * per_array(), 1);
                c.count("elements.written", data.size() / type->size);
            }

            template<typename Value>
            void write(vh::Case& c, Value& value, std::string const& what)
            {
                write(c, value, what, [&](std::size_t const n) { return random_elements(c.rng, *type, n, false); });
            }

            // Everything known through a handle
            template<typename Value>
            void verify(vh::Case& c, Value& value, std::string const& what) const
            {
                c.check(value.nr_arrays() == nr, "nr:" + what, std::format("{}: {} arrays, expected {}", what, value.nr_arrays(), nr));
                c.check(value.array_shape() == shape, "shape:" + what,
                    std::format("{}: array shape {}, expected {}", what, to_string(value.array_shape()), to_string(shape)));
                c.check(value.memory_datatype() == type->native(), "memory-datatype:" + what, what + ": other memory data type");
                c.check(value.file_datatype() == type->file(), "file-datatype:" + what, what + ": other file data type");
                // An array in which nothing was written yet cannot be read
                if (std::find(known.begin(), known.end(), 1) == known.end()) return;
                Buffer buffer(bytes.size());
                value.read(buffer.data());
                compare(c, buffer.bytes(), bytes, known, type->size, "content:" + what, what);
                std::size_t const begin = c.rng.below(nr), end = c.rng.range(begin + 1, nr);
                std::size_t const size = per_array() * type->size;
                Buffer part((end - begin) * size);
                if (end == begin + 1 && c.rng.chance(50)) value.read(begin, part.data());
                else value.read(ldm::IndexRange{begin, end}, part.data());
                compare(c, part.bytes(), Bytes(bytes.begin() + begin * size, bytes.begin() + end * size),
                    std::vector<char>(known.begin() + begin * per_array(), known.begin() + end * per_array()), type->size, "content:" + what,
                    std::format("{} [{},{})", what, begin, end));
            }
    };

    inline auto element_type(std::string const& name) -> ElementType const*
    {
        for (auto const& t : element_types())
        {
            if (name == t.name) return &t;
        }
        throw std::logic_error("VH-HARNESS-ERROR no such element type");
    }

}  // namespace dm
