#include "macros.hpp"
BOOST_OPENMETHOD_CLASSES(zoo::Animal, zoo::Dog, zoo::Bulldog);
namespace zoo {
BOOST_OPENMETHOD_DEFINE_OVERRIDER(poke, (virtual_ptr<Dog> a, int& n), int) { enter(1); n++; return has_next() ? 10 * next(a, n) + a->d : a->d; }
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Bulldog> a, int& n), int) {
    if (n > 100) { n -= 100; return fn(a, n); }
    enter(4); n++; return has_next() ? 10 * next(a, n) + a->b : a->b;
}
BOOST_OPENMETHOD_DEFINE_OVERRIDER(poke, (virtual_ptr<Dog> a, virtual_ptr<Cat> b), int) { enter(3); diary.entries += 10; return has_next() ? 10 * next(a, b) + 4 : a->d + 2; }
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog> a, virtual_ptr<Animal> b), int) { enter(1); return has_next() ? 10 * next(a, b) + 2 : a->d; }
BOOST_OPENMETHOD_OVERRIDE(name, (long, const Dog& d), const int*) { enter(0); return &d.d; }
}
int pokeA(int c, int& n) { return poke(zoo::virtual_ptr<zoo::Animal>(animal(c)), n); }
int meetA(int c, int d) { return zoo::poke(animal(c), animal(d)); }
long farmA(int c, long x) { return farm::poke(animal(c), x); }
const int* nameA(int c) { return name(7, animal(c)); }
