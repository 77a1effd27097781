// LINK: lue::data_model
// C09: validation accepts every consistent dataset, and never modifies it.
//
// Model: datasets that are consistent by construction (dsgen.hpp). Monitors: the issues that are reported,
// through each of the entry points, and the content of the file around validation.
#include "dsgen.hpp"
#include "snapshot.hpp"

using namespace dm;

namespace {

    void accepted(vh::Case& c, lh5::Issues const& issues, std::string const& how)
    {
        c.count("validations");
        c.count("warnings", issues.warnings().size());
        if (issues.errors_found()) c.fail("error-reported:" + how, "consistent dataset: " + issues.errors().front().message() + " (" + issues.errors().front().id().pathname() + ")");
        c.check(!issues.errors_found(), "error-reported:" + how, "error reported");
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("consistent.lue");
        {
            bool const in_memory = rng.chance(10);
            ldm::Dataset dataset{in_memory ? ldm::create_in_memory_dataset(path) : ldm::create_dataset(path)};
            dsgen::Builder builder{c};
            builder.build(dataset);
            if (in_memory || rng.chance(50))
            {
                auto const before = snapshot::of(dataset.id());
                c.op("validate", "dataset that was built");
                lh5::Issues issues;
                ldm::validate(dataset, issues);
                accepted(c, issues, "dataset");
                ldm::assert_is_valid(dataset, false);
                auto const difference = snapshot::difference(before, snapshot::of(dataset.id()));
                c.check(difference.empty(), "validation-modified", "validation changed the dataset: " + difference);
                if (in_memory) return;
            }
        }
        auto const before = vh::read_file(path);
        c.check(!before.empty(), "no-file", "no file");
        {
            c.op("validate", "re-opened dataset");
            auto dataset = ldm::open_dataset(path, rng.chance(50) ? H5F_ACC_RDONLY : H5F_ACC_RDWR);
            lh5::Issues issues;
            ldm::validate(dataset, issues);
            accepted(c, issues, "re-opened");
        }
        {
            c.op("validate", "by path");
            lh5::Issues issues;
            ldm::validate(path, issues);
            accepted(c, issues, "path");
            bool const warnings = issues.warnings_found();
            ldm::assert_is_valid(path, false);
            if (warnings) c.throws("warnings-accepted", "asserting validity, including warnings", [&] { ldm::assert_is_valid(path, true); });
            else ldm::assert_is_valid(path, true);
        }
        {
            c.op("validate", "file");
            lh5::File file{path};
            lh5::Issues issues;
            ldm::validate(file, issues);
            accepted(c, issues, "file");
            ldm::assert_is_valid(file, false);
        }
        c.check(before == vh::read_file(path), "validation-modified-file", "validation changed the file");
        c.count("files.compared");
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
