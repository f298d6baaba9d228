// One translation unit of the program: TU is its name.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include "odr.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace om = boost::openmethod;
namespace CAT(tu_, TU) {
struct A { virtual ~A() {} }; struct B : A {};
BOOST_OPENMETHOD_CLASSES(A, B);
BOOST_OPENMETHOD(f, (om::virtual_<A&>, int), int);
BOOST_OPENMETHOD_OVERRIDE(f, (A&, int x), int) { return x; }
BOOST_OPENMETHOD_OVERRIDE(f, (B& b, int x), int) { return next(b, x) * 2; }
static void on_error(const om::default_registry::error_handler::error_variant& e) { received(std::holds_alternative<om::odr_violation>(e)); }
static void handle() { om::default_registry::error_handler::set(on_error); }
static void init() { om::initialize(); }
static void fini() { om::finalize(); }
static int call(int x) { B b; return f(b, x); }
static Unit unit = {handle, init, fini, call, units};
static bool linked = (units = &unit, true);
}
