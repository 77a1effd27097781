// C34: aggregates of whole arrays
#include "tests.hpp"

int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
