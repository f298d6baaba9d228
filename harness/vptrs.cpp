// C12: a virtual_ptr always pairs an object with that object's v-table.
#include "hier.hpp"
using VA = om::virtual_ptr<A, Reg>; using VB = om::virtual_ptr<B, Reg>; using VM = om::virtual_ptr<M, Reg>; using VC = om::virtual_ptr<const A, Reg>; using VP = om::virtual_ptr<P, Reg>;
// a method, to see what a pointer does
static const void* seen;
struct Id; using Me = om::method<Id, int(VA), Reg>;
static int fa(VA p) { seen = p.get(); return DA; } static int fb(VB p) { seen = static_cast<A*>(p.get()); return DB; } static int fm(VM p) { seen = static_cast<A*>(p.get()); return DM; }
static int fv(om::virtual_ptr<V, Reg> p) { seen = static_cast<A*>(p.get()); return DV; }
static Me::override<fa, fb, fm, fv> r1;
static A oa, oa2; static B ob; static M om_; static V ov;
constexpr int NOBJ = 5;
static A* obj(int i) { switch (i) { case 0: return &oa; case 1: return &oa2; case 2: return &ob; case 3: return &om_; default: return &ov; } }
static int dyn(int i) { return i <= 1 ? DA : i == 2 ? DB : i == 3 ? DM : DV; }
// the pointers, and what they should designate (-1: null)
static VA p, q; static VB b; static VM m; static VC c; static VP w;
static int mp = -1, mq = -1, mb = -1, mm = -1, mc = -1, mw = -1;
template<class VPtr> static void check1(const VPtr& x, int o, const char* msg) {
    using E = typename VPtr::element_type;
    if (o < 0) { sym_assert(x.get() == nullptr && x.vptr() == nullptr, msg); return; }
    E* want = dynamic_cast<E*>(obj(o));
    sym_assert(x.get() == want && x.pointer() == want && &*x == want && x.operator->() == want, msg);
    sym_assert(x.vptr() == vptr_of(dyn(o)), "a virtual_ptr has the v-table of the class of its object");
}
static void check() {
    check1(p, mp, "the pointer designates the object it was last given"); check1(q, mq, "the pointer designates the object it was last given");
    check1(b, mb, "the pointer designates the object it was last given"); check1(m, mm, "the pointer designates the object it was last given");
    check1(c, mc, "the pointer designates the object it was last given"); check1(w, mw, "the pointer designates the object it was last given");
    sym_assert((p == q) == (mp == mq) && (p != q) == (mp != mq), "comparison agrees with the object pointers");
    sym_assert((p == b) == (mp == mb) && (c == p) == (mc == mp) && (m != p) == (mm != mp), "comparison agrees with the object pointers");
}
static int any_obj(const char* n) { return (int)sym_pick(n, NOBJ); }
static const VA& cref(const VA& x) { return x; }
static void step(int i) {
    const char* on = nm("obj", i);
    switch (sym_pick(nm("op", i), 27)) {
    case 0: mp = any_obj(on); p = *obj(mp); break;
    case 1: mp = any_obj(on); p = obj(mp); break;
    case 2: p = nullptr; mp = -1; break;
    case 3: p = q; mp = mq; break;
    case 4: q = std::move(p); mq = mp; break; // moving from a plain virtual_ptr copies it
    case 5: p = m; mp = mm; break;
    case 6: m = om_; mm = 3; break;
    case 7: m = &om_; mm = 3; break;
    case 8: c = p; mc = mp; break;
    case 9: { mc = any_obj(on); const A& x = *obj(mc); c = x; break; }
    case 10: { mp = any_obj(on); VA t(*obj(mp)); p = t; break; }
    case 11: { VA t(p); q = t; mq = mp; break; }
    case 12: { VA t(std::move(q)); p = t; mp = mq; break; }
    case 13: if (mp >= 0) { if (mp != 3) sym_assume(false); m = p.cast<M>(); mm = mp; } break;
    case 14: if (mm >= 0) { p = m.cast<A>(); mp = mm; } break;
    case 15: { VA& self = p; p = self; break; }
    case 16: b = ob; mb = 2; break;
    case 17: b = ov; mb = 4; break;
    case 18: { VA t(b); p = t; mp = mb; break; }
    case 19: if (mb == 4) { b = b.cast<V>(); } else if (mp == 4) { b = p.cast<V>(); mb = 4; } break;
    case 20: { VC t(b); c = t; mc = mb; break; }
    case 21: w = m; mw = mm; break;
    case 22: if (mw == 3) { m = w.cast<M>(); mm = 3; } else if (mp == 3) { w = VP(p.cast<M>()); mw = 3; } break;
    case 23: { VA t(nullptr); q = t; mq = -1; break; }
    case 24: { std::swap(p, q); std::swap(mp, mq); break; }
    case 25: { mq = any_obj(on); q = VA(obj(mq)); break; }
    case 26: w = ov; mw = 4; break;
    }
}
extern "C" void sym_main() {
    om::initialize<Reg>();
    p = nullptr; q = nullptr; b = nullptr; m = nullptr; c = nullptr; w = nullptr; check();
    for (int i = 0; i < CFG_STEPS; i++) { step(i); check(); sym_assert(nerr == 0, "no error"); }
    if (mp >= 0) { seen = nullptr; sym_assert(Me::fn(p) == dyn(mp) && seen == obj(mp), "a call dispatches on the class of the object"); sym_reach("called"); } else sym_reach("null");
    if (mb >= 0) sym_assert(Me::fn(b) == dyn(mb) && seen == obj(mb), "a call dispatches on the class of the object");
}
