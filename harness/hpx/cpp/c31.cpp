// C31: local operations
#include "tests.hpp"

int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
