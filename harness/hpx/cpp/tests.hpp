// Kinds of cases, which are registered by the source files of an executable
#pragma once
#include "grid.hpp"

namespace vh {

    struct Test
    {
            std::string name;
            void (*run)(Case&, std::string const&);
    };

    inline auto tests() -> std::vector<Test>&
    {
        static std::vector<Test> t;
        return t;
    }

    struct Register
    {
            Register(std::string const& name, void (*run)(Case&, std::string const&)) { tests().push_back({name, run}); }
    };

    inline auto run_tests(int argc, char** argv) -> int
    {
        return run(argc, argv, [](Case& c) {
            c.nontrivial();
            static bool const sorted = [] { std::sort(tests().begin(), tests().end(), [](auto const& a, auto const& b) { return a.name < b.name; }); return true; }();
            (void)sorted;
            Test const& test = tests()[c.index() % tests().size()];
            test.run(c, test.name);
            c.count("operations.checked");
        });
    }

}  // namespace vh

#define VH_CONCAT2(a, b) a##b
#define VH_CONCAT(a, b) VH_CONCAT2(a, b)
#define VH_TEST(name, ...) \
    static vh::Register VH_CONCAT(vh_test_, __COUNTER__){name, [](vh::Case& c, std::string const& n) { __VA_ARGS__; }};
