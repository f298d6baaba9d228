#define TU c
#include "odr_tu.hpp"
