#include "../../geos_all.hpp"
