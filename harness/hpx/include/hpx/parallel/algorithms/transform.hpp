#pragma once
#include "vhpx/components.hpp"
