#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
#define TU a
#include "odr_tu.hpp"
