// C35: flow of material along flow directions
#include "tests.hpp"
int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
