#include "macros.hpp"
using namespace zoo;
BOOST_OPENMETHOD_CLASSES(Animal, Cat, Dog, Catdog);
namespace other {
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Cat> a, int& n), int) { enter(2); n++; return has_next() ? 10 * next(a, n) + a->c : a->c; }
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Animal> a, virtual_ptr<Cat> b), int) { enter(2); return has_next() ? 10 * next(a, b) + 3 : b->c; }
}
namespace zoo {
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Catdog> a, int& n), int) { // calls others by their names
    enter(3); n++; return 10 * (n > 50 ? BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Animal>, int&), int)::fn(a, n) : BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Dog>, int&), int)::fn(a, n)) + a->e;
}
// with the core interface
static int both(virtual_ptr<Catdog> a, virtual_ptr<Catdog> b) { enter(4); using Poke = BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int); return Poke::has_next<both>() ? 10 * Poke::next<both>(a, b) + 5 : 5; }
BOOST_OPENMETHOD_REGISTER(BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int)::override<both>);
}
namespace other { BOOST_OPENMETHOD_OVERRIDE(name, (long x, const Cat& c), const int*) { enter(1); return x == 7 ? &c.c : nullptr; } }
namespace farm {
BOOST_OPENMETHOD_OVERRIDE(poke, (Cat& c, long x), long) { enter(1); return next(c, x) + 3; }
BOOST_OPENMETHOD_OVERRIDE(poke, (Dog& d, long x), long) { enter(2); return next(d, x + 1) + 5; }
BOOST_OPENMETHOD_OVERRIDE(poke, (Catdog& d, long x), long) { enter(3); return has_next() ? 1 : x * 2; }
}
int pokeB(int c, int& n) { return poke(virtual_ptr<Animal>(animal(c)), n); }
int meetB(int c, int d) { return poke(virtual_ptr<Animal>(animal(c)), virtual_ptr<Animal>(animal(d))); }
long farmB(int c, long x) { return farm::poke(animal(c), x); }
const int* nameB(int c) { return name(7L, animal(c)); }
