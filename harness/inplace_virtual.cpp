// C14, virtual inheritance: a class with an embedded v-table pointer as a virtual base.
#include "world.hpp"
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <new>
using Reg = om::registry<pol::std_rtti, rec_errors>;
struct R; struct S; struct T; static void in(R& r, int cls);
struct R : om::inplace_vptr_base<R, Reg> { R() { in(*this, 0); } virtual ~R() { in(*this, 0); } };
struct S : virtual R, om::inplace_vptr_derived<S, R> { int s = 1; S() { in(*this, 1); } ~S() { in(*this, 1); } };
struct T : S, om::inplace_vptr_derived<T, S> { int t = 1; T() { in(*this, 2); } ~T() { in(*this, 2); } };
struct Id; using M = om::method<Id, int(virtual_<R&>), Reg>;
static int r(R&) { return 0; } static int s(S&) { return 1; } static int t(T&) { return 2; }
static M::override<r, s, t> o;
static void in(R& x, int cls) { sym_assert(M::fn(x) == cls, "a call dispatches on the class under construction or destruction"); sym_reach("called"); }
alignas(16) static unsigned char raw[256];
extern "C" void sym_main() {
    om::initialize<Reg>();
    switch (sym_pick("class", 3)) {
    case 0: { R* p = new (raw) R; in(*p, 0); p->~R(); break; }
    case 1: { S* p = new (raw) S; in(*p, 1); p->~S(); break; }
    case 2: { T* p = new (raw) T; in(*p, 2); p->~T(); break; }
    }
}
