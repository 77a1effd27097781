// C38: operations whose result is not divided in, or does not depend on, the same cells as its argument
#include "tests.hpp"

int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
