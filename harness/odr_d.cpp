#define TU d
#include "odr_tu.hpp"
