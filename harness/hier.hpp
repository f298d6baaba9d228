// A real class hierarchy: single, multiple and virtual inheritance, with bases at an offset.
#pragma once
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <memory>
inline int alive[8]; // objects, by class, constructed and not destroyed
inline int destroyed[16];
struct Counted { int id = -1; };
struct A { int a = 11; int id = -1; mutable int refs = 0; A() {} A(int i) : id(i) {} virtual ~A() { if (id >= 0) destroyed[id]++; } };
struct B : A { long b = 12; B(int i = -1) : A(i) {} };
struct P { long p = 21; virtual ~P() {} };
struct M : P, A { int m = 22; M(int i = -1) : A(i) {} };   // A at an offset
struct V : P, virtual B { int v = 23; V(int i = -1) : B(i) {} }; // A and B are virtual bases
struct U { virtual ~U() {} int u = 1; };                     // never registered
#ifndef HIER_POLICIES
#define HIER_POLICIES pol::vptr_map<>
#endif
using Reg = om::registry<pol::std_rtti, rec_errors, HIER_POLICIES>;
static om::use_classes<A, B, P, M, V, Reg> classes_;
// the dynamic classes
enum Dyn { DA, DB, DM, DV, NDYN };
inline om::vptr_type vptr_of(int d) {
    switch (d) { case DA: return Reg::static_vptr<A>; case DB: return Reg::static_vptr<B>; case DM: return Reg::static_vptr<M>; default: return Reg::static_vptr<V>; }
}
