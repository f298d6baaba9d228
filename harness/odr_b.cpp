#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
#define TU b
#include "odr_tu.hpp"
