// C19: initialization state is enforced, and resources are released.
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
static int failPoint; // where the next initialize fails: 0 nowhere, 1 a class is missing, 2, 3 in a policy, before or after its work
struct failing : pol::vptr {
    template<class R> struct fn : pol::CFG_VPTR::fn<R> {
        using base = typename pol::CFG_VPTR::template fn<R>;
        template<class C, class... O> static void initialize(const C& c, const std::tuple<O...>& o) {
            if (failPoint == 2) throw Thrown();
            base::initialize(c, o);
            if (failPoint == 3) throw Thrown();
        }
    };
};
#define HIER_POLICIES failing, pol::runtime_checks CFG_MORE
#include "hier.hpp"
using VA = om::virtual_ptr<A, Reg>; using VB = om::virtual_ptr<B, Reg>;
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
struct E : om::inplace_vptr_base<E, Reg> { virtual ~E() {} }; struct F : E, om::inplace_vptr_derived<F, E> {}; // embedded v-table pointers
using VE = om::virtual_ptr<E, Reg>; using VF = om::virtual_ptr<F, Reg>;
struct Id; using Mi = om::method<Id, int(om::virtual_<E&>), Reg>; using Mj = om::method<Id, int(VE), Reg>;
static int ia(E&) { ran++; return DA; } static int ib(F&) { ran++; return DB; } static int ja(VE) { ran++; return DA; } static int jb(VF) { ran++; return DB; }
static Mi::override<ia, ib> r6; static Mj::override<ja, jb> r7;
 using Mr = om::method<Id, int(om::virtual_<A&>), Reg>; using Mv = om::method<Id, int(VA), Reg>; using Mc = om::method<Id, int(const VA&, int), Reg>;
using Ms = om::method<Id, int(om::virtual_<const std::shared_ptr<A>&>), Reg>; using Mb = om::method<Id, int(int, VA, om::virtual_<A&>), Reg>; using Mp = om::method<Id, int(om::virtual_<A*>), Reg>;
static int ra(A&) { ran++; return DA; } static int rb(B&) { ran++; return DB; } static int va(VA) { ran++; return DA; } static int vb(VB) { ran++; return DB; }
static int ca(const VA&, int) { ran++; return DA; } static int cb(const VB&, int) { ran++; return DB; } static int sa(const std::shared_ptr<A>&) { ran++; return DA; } static int sb(const std::shared_ptr<B>&) { ran++; return DB; }
static int ba(int, VA, A&) { ran++; return DA; } static int bb(int, VB, B&) { ran++; return DB; } static int pa(A*) { ran++; return DA; } static int pb(B*) { ran++; return DB; }
static Mr::override<ra, rb> r0; static Mv::override<va, vb> r1; static Mc::override<ca, cb> r2; static Ms::override<sa, sb> r3; static Mb::override<ba, bb> r4; static Mp::override<pa, pb> r5;
static A oa; static B ob; static M om_; static V ov;
static std::shared_ptr<A>* sp; static VB* kept;
alignas(16) static char store[64];
static int act(size_t what) { // everything that needs an initialized registry
    switch (what) {
    case 0: return Mr::fn(ob);
    case 1: return kept ? Mv::fn(*kept) : (VB(ob), DB);
    case 2: return kept ? Mc::fn(*kept, 1) : (VB(ob), DB);
    case 3: return Ms::fn(*sp);
    case 4: return kept ? Mb::fn(1, *kept, ob) : (VB(ob), DB);
    case 5: return Mp::fn(&ob);
    case 6: { VA p(ob); return p.get() == &ob ? DB : 99; }
    case 7: { VA p(&ob); return p.get() == &ob ? DB : 99; }
    case 8: { VA p(nullptr); p = ob; return p.get() == &ob ? DB : 99; }
    case 9: { auto p = om::final_virtual_ptr<Reg>(ob); return p.get() == &ob ? DB : 99; }
    case 10: { auto p = VB::final(ob); return p.get() == &ob ? DB : 99; }
    case 11: { om::shared_virtual_ptr<A, Reg> p(*sp); return p.get() == sp->get() ? DB : 99; }
    case 12: { om::shared_virtual_ptr<A, Reg> p; p = *sp; return p.get() == sp->get() ? DB : 99; }
    case 13: { auto p = om::make_shared_virtual<B, Reg>(); return p.get() ? DB : 99; }
    case 14: { auto p = om::make_unique_virtual<B, Reg>(); return p.get() ? DB : 99; }
    case 15: { VA p(nullptr); p = &ob; return p.get() == &ob ? DB : 99; }
    case 16: return Mv::fn(ob);
    case 17: return Mv::fn(&ob);
    case 19: { F e; return Mi::fn(e); }
    case 20: { F e; return Mj::fn(e); }
    case 21: { F e; VE p(e); return p.get() == &e ? DB : 99; }
    case 22: { F e; VE p(&e); return p.get() == &e ? DB : 99; }
    case 23: { F e; VE p(nullptr); p = e; return p.get() == &e ? DB : 99; }
    case 24: { F e; auto p = om::final_virtual_ptr<Reg>(e); return p.get() == &e ? DB : 99; }
    case 25: { om::shared_virtual_ptr<E, Reg> p(std::make_shared<F>()); return p.get() ? DB : 99; }
    case 26: { om::unique_virtual_ptr<E, Reg> p(std::make_unique<F>()); return p.get() ? DB : 99; }
    case 18: { om::shared_virtual_ptr<A, Reg> p(std::make_shared<B>()); return p.get() ? DB : 99; }
    }
    return 0;
}
constexpr size_t ACTS = 27;
enum State { NO, YES, EITHER };
static void check(State s) {
    uint64_t live = sym_heap_live();
    for (size_t w = 0; w < ACTS; w++) {
        int r = 0; nerr = ran = 0;
        try { r = act(w); } catch (Thrown&) { r = -last.kind; }
        if (s == NO || (s == EITHER && r < 0)) { sym_assert(r == -NOT_INIT && nerr == 1 && ran == 0, "before initialize and after finalize, calls and virtual_ptr constructions report not_initialized"); sym_reach("not_initialized"); }
        else { sym_assert(r == DB && nerr == 0, "between initialize and finalize, no error is reported"); sym_reach("initialized"); }
    }
    sym_assert(sym_heap_live() == live, "errors and calls keep no memory");
}
extern "C" void sym_main() {
    sp = new std::shared_ptr<A>(std::make_shared<B>());
    State s = NO; uint64_t before = sym_heap_live(), after = 0; bool ok = false;
    om::detail::class_info* sl = nullptr; for (auto& c : Reg::classes) if (c.type == &typeid(A)) sl = &c;
    auto& slot = *sl;
    check(s);
    for (int step = 0; step < CFG_STEPS; step++) {
        size_t op = sym_pick(nm("op", step), 5);
        if (op == 4) { om::finalize<Reg>(); s = NO; kept = nullptr; sym_assert(sym_heap_live() == before, "finalize releases what initialize allocated"); sym_reach("finalized"); }
        else {
            failPoint = (int)op;
            if (op == 1) Reg::classes.remove(slot);
            nerr = 0; bool thrown = false;
            try { om::initialize<Reg>(); } catch (Thrown&) { thrown = true; }
            if (op == 1) { Reg::classes.push_back(slot); sym_assert(thrown && nerr == 1 && last.kind == MISSING_CLASS, "a missing class is reported"); }
            sym_assert(thrown == (op != 0), "initialize fails if and only if it should");
            if (op == 0) {
                s = YES; kept = new (store) VB(ob);
                if (ok) sym_assert(sym_heap_live() <= after, "repeated initializations do not accumulate memory");
                after = sym_heap_live(); ok = true; sym_assert(after > before, "memory");
            } else { if (s == YES) s = EITHER; sym_reach(s == NO ? "failed" : "failed again"); }
            failPoint = 0;
        }
        check(s);
    }
    if (s == EITHER) sym_done();
    // a handler that returns: the program ends
    if (s == NO) { size_t w = sym_pick("last", ACTS); sym_reach("abort"); errReturns = true; nerr = 0; sym_expect_abort(1); act(w); sym_assert(false, "the program does not continue"); }
}
