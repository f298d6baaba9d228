// C28: the header of a program written with the macros, included by all its translation units.
#pragma once
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
extern int trail[16]; extern int ntrail; // the overriders that ran
inline void enter(int o) { trail[ntrail++ & 15] = o; }
namespace zoo {
using boost::openmethod::virtual_ptr; using boost::openmethod::virtual_;
struct Animal { virtual ~Animal() {} int a = 1; };
struct Dog : virtual Animal { int d = 2; }; struct Cat : virtual Animal { int c = 3; };
struct Catdog : Dog, Cat { int e = 4; }; struct Bulldog : Dog { int b = 5; };
BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, int&), int);
BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int); // an overload
BOOST_OPENMETHOD(name, (long, virtual_<const Animal&>), const int*);
BOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (virtual_ptr<Animal> a, int& n), int) { enter(0); n++; return a->a; }
BOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<Dog> a, int& n), int);
BOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<Dog>, virtual_ptr<Cat>), int);
class Diary { // only some overriders may write to it
    int entries = 0;
    friend BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Dog>, virtual_ptr<Cat>), int);
    friend BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int);
public: int read() const { return entries; }
};
extern Diary diary;
BOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int) { enter(0); diary.entries++; return 1; }
}
namespace farm { // a method of the same name
BOOST_OPENMETHOD(poke, (zoo::virtual_<zoo::Animal&>, long), long);
BOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (zoo::Animal&, long x), long) { enter(0); return x; }
}
zoo::Animal& animal(int c);
// calls made in the other translation units
int pokeA(int c, int& n); int pokeB(int c, int& n); int meetA(int c, int d); int meetB(int c, int d); long farmA(int c, long x); long farmB(int c, long x); const int* nameA(int c); const int* nameB(int c);
