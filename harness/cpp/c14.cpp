// LINK: lue::data_model
// C14: every valid array shape can be stored, with storage blocks within limits.
//
// Oracle: the inequalities that define a storage block, computed in 128-bit integers, for the block that is computed and
// for the block that HDF5 reports for arrays that are created; and elements at corners of sparse arrays.
#include "dm.hpp"

using namespace dm;
using Wide = unsigned __int128;

namespace {

    constexpr std::size_t limit = 1048576;

    auto bytes_of(lh5::Shape const& shape, std::size_t const size) -> Wide
    {
        Wide r = size;
        for (auto const e : shape) r *= e;
        return r;
    }

    auto text(lh5::Shape const& shape) -> std::string
    {
        std::string r;
        for (auto const e : shape) r += (r.empty() ? "" : ",") + std::to_string(e);
        return "(" + r + ")";
    }

    // A valid shape: less than 2^60 bytes
    auto random_large_shape(vh::Case& c, std::size_t const max_rank, std::size_t const size, unsigned const bits) -> lh5::Shape
    {
        auto& rng = c.rng;
        lh5::Shape r(rng.below(max_rank + 1), 1);
        Wide budget = (Wide{1} << bits) / size;
        if (rng.chance(40)) budget = Wide{1} << rng.range(1, 24);
        std::vector<std::size_t> order(r.size());
        for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        auto const style = rng.below(4);
        for (std::size_t k = 0; k < order.size(); ++k)
        {
            auto& e = r[order[k]];
            std::uint64_t high = 0;
            switch (style)
            {
                case 0: high = std::uint64_t{1} << rng.below(50); break;
                case 1: high = 4; break;
                case 2: high = rng.chance(60) ? 1 : std::uint64_t{1} << rng.below(40); break;
                default: high = static_cast<std::uint64_t>(std::max<Wide>(1, Wide{1} << (60 / order.size()))); break;
            }
            high = static_cast<std::uint64_t>(std::min<Wide>(high, std::max<Wide>(budget, 1)));
            e = rng.chance(30) ? high : rng.range(1, high);
            budget = std::max<Wide>(1, budget / e);
        }
        // Around the size at which a value does not fit anymore
        if (!r.empty() && rng.chance(25))
        {
            auto const i = rng.below(r.size());
            Wide const others = bytes_of(r, size) / r[i];
            if (others <= limit) r[i] = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(limit / others) + rng.below(3) - 1);
        }
        return r;
    }

    // What must hold for a block in which values of some shape are stored
    void check_block(vh::Case& c, lh5::Shape const& shape, std::size_t const size, lh5::Shape const& block)
    {
        std::string const what = std::format("value {} of {} bytes per element, block {}", text(shape), size, text(block));
        c.count("blocks.checked");
        c.check(block.size() == shape.size() + 1, "rank", what);
        for (auto const e : block) c.check(e >= 1, "empty", what);
        for (std::size_t i = 0; i < shape.size(); ++i) c.check(block[i + 1] <= shape[i], "larger-than-value", what);
        c.check(bytes_of(block, size) <= limit, "larger-than-limit", what);
        if (bytes_of(shape, size) <= limit)
        {
            c.count("blocks.whole");
            c.check(lh5::Shape(block.begin() + 1, block.end()) == shape, "not-whole", what);
            // As many as fit
            c.check(bytes_of(block, size) + bytes_of(shape, size) > limit, "too-few-values", what);
        }
        else
        {
            c.count("blocks.parts");
            c.check(block[0] == 1, "several-large-values", what);
        }
    }

    auto stored_block(hid_t const id) -> lh5::Shape
    {
        hid_t const list = H5Dget_create_plist(id);
        hsize_t dims[33]{};
        int const n = H5Pget_layout(list) == H5D_CHUNKED ? H5Pget_chunk(list, 33, dims) : 0;
        H5Pclose(list);
        return {dims, dims + std::max(n, 0)};
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        std::vector<std::size_t> const sizes{1, 2, 4, 8};
        for (int i = 0; i < 40; ++i)
        {
            auto const size = rng.pick(sizes);
            auto const shape = random_large_shape(c, 31, size, 60);
            c.op("chunk_shape", std::format("{} {}", text(shape), size));
            check_block(c, shape, size, lh5::chunk_shape(shape, size));
            switch (size)
            {
                case 1: check_block(c, shape, size, lh5::chunk_shape<std::int8_t>(shape)); break;
                case 2: check_block(c, shape, size, lh5::chunk_shape<std::uint16_t>(shape)); break;
                case 4: check_block(c, shape, size, lh5::chunk_shape<float>(shape)); break;
                default: check_block(c, shape, size, lh5::chunk_shape<double>(shape)); break;
            }
        }
        // Arrays of such shapes, written at some corners
        std::string const path = c.path("shapes.lue");
        struct Corner { std::string name; int kind; lh5::Shape shape; ElementType const* type; lh5::Offset offset; Bytes value; };
        std::vector<Corner> corners;
        std::vector<ldm::ID> const ids{7};
        {
            auto dataset = ldm::create_dataset(path);
            auto& phenomenon = dataset.add_phenomenon("p");
            auto& set = phenomenon.property_sets().add("s");
            auto& properties = set.properties();
            int const n = static_cast<int>(rng.range(1, 3));
            for (int i = 0; i < n; ++i)
            {
                Corner k;
                k.name = "property " + std::to_string(i);
                k.kind = static_cast<int>(rng.below(4));
                k.type = &rng.pick(element_types());
                auto const type = k.type->native();
                // HDF5 can store fewer than 2^32 blocks per array
                auto const nr_blocks = [&] {
                    auto const block = lh5::chunk_shape(k.shape, type.size());
                    Wide r = 3;
                    for (std::size_t d = 0; d < k.shape.size(); ++d) r *= (k.shape[d] - 1) / std::max<hsize_t>(block[d + 1], 1) + 1;
                    return r;
                };
                do k.shape = random_large_shape(c, rng.chance(70) ? 8 : 31, type.size(), static_cast<unsigned>(rng.range(21, 48)));
                while ((k.kind > 1 && k.shape.empty()) || nr_blocks() > (Wide{1} << 31U));
                c.op("create", std::format("kind {} {} {}", k.kind, text(k.shape), k.type->name));
                auto const count = rng.range(1, 3);
                // The last element of the last array
                lh5::Offset offset{count - 1};
                offset.insert(offset.end(), k.shape.begin(), k.shape.end());
                for (std::size_t d = 1; d < offset.size(); ++d) offset[d] = rng.chance(70) ? offset[d] - 1 : rng.below(offset[d]);
                k.offset = offset;
                k.value = random_elements(rng, *k.type, 1, true);
                auto use = [&](auto& value) {
                    auto const block = stored_block(value.id());
                    check_block(c, k.shape, type.size(), block);
                    value.expand(count);
                    Buffer buffer{k.value};
                    static_cast<ldm::Array&>(value).write(lh5::Hyperslab{k.offset, lh5::Count(k.offset.size(), 1)}, buffer.data());
                };
                switch (k.kind)
                {
                    case 0: use(properties.add(k.name, type, k.shape).value()); break;
                    case 1: use(properties.add<ldm::same_shape::constant_shape::Property>(k.name, type, k.shape).value()); break;
                    case 2:
                    {
                        auto& value = properties.add<ldm::same_shape::variable_shape::Property>(k.name, type, k.shape.size()).value();
                        auto array = value.expand(0, count, k.shape);
                        check_block(c, k.shape, type.size(), stored_block(array.id()));
                        Buffer buffer{k.value};
                        static_cast<ldm::Array&>(array).write(lh5::Hyperslab{k.offset, lh5::Count(k.offset.size(), 1)}, buffer.data());
                        break;
                    }
                    default:
                    {
                        auto& value = properties.add<ldm::different_shape::constant_shape::Property>(k.name, type, k.shape.size()).value();
                        auto array = value.expand(7, k.shape, count);
                        check_block(c, k.shape, type.size(), stored_block(array.id()));
                        Buffer buffer{k.value};
                        static_cast<ldm::Array&>(array).write(lh5::Hyperslab{k.offset, lh5::Count(k.offset.size(), 1)}, buffer.data());
                        break;
                    }
                }
                corners.push_back(k);
                c.count("arrays.created");
            }
        }
        c.nontrivial();
        c.op("reopen");
        auto dataset = ldm::open_dataset(path);
        auto& properties = dataset.phenomena()["p"].property_sets()["s"].properties();
        for (auto const& k : corners)
        {
            c.op("read", k.name);
            Bytes found(k.value.size());
            auto read = [&](auto const& array) {
                auto const shape = array.shape();
                c.check(lh5::Shape(shape.begin() + 1, shape.end()) == k.shape, "shape", "the shape is another one");
                static_cast<ldm::Array const&>(array).read(lh5::Hyperslab{k.offset, lh5::Count(k.offset.size(), 1)}, found.data());
            };
            switch (k.kind)
            {
                case 0: read(properties.collection<ldm::same_shape::Properties>()[k.name].value()); break;
                case 1: read(properties.collection<ldm::same_shape::constant_shape::Properties>()[k.name].value()); break;
                case 2: read(properties.collection<ldm::same_shape::variable_shape::Properties>()[k.name].value()[0]); break;
                default: read(properties.collection<ldm::different_shape::constant_shape::Properties>()[k.name].value()[7]); break;
            }
            c.check(found == k.value, "corner", "the element that is read is not the one that was written: " + text(k.shape));
            c.count("corners.compared");
        }
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
