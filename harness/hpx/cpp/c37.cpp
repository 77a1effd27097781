// C37: creation of arrays
#include "tests.hpp"

int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
