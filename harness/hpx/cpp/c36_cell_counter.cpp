#include "hpxcase.hpp"
#include "algorithm/source/routing_operation/walk/cell_counter.cpp"
