// C18: the same classes, method names, signatures and overriders in two registries, through the public interface.
#include "hier.hpp"
#include <boost/openmethod/inplace_vptr.hpp>
using RA = om::registry<pol::std_rtti, rec_errors, CFG_PA>; using RB = om::registry<pol::std_rtti, rec_errors, CFG_PB>;
static om::use_classes<A, B, M, RA> rega_; static om::use_classes<A, B, M, RB> regb_;
template<class... P> struct Id;
template<class R> using Me = om::method<Id<>, int(om::virtual_<A&>), R>;
template<class R> using Mp = om::method<Id<>, int(om::virtual_ptr<A, R>), R>;
static int fa(A&) { ran++; return DA; } static int fb(B&) { ran++; return DB; } static int fm(M&) { ran++; return DM; }
template<class R> static int pa(om::virtual_ptr<A, R>) { ran++; return 10 + DA; } template<class R> static int pb(om::virtual_ptr<B, R>) { ran++; return 10 + DB; }
// RA: fa, fb; pa, pb.  RB: fa, fm; pa.  The bodies are shared.
static typename Me<RA>::template override<fa, fb> ra; static typename Me<RB>::template override<fa, fm> rb;
static typename Mp<RA>::template override<pa<RA>, pb<RA>> qa; static typename Mp<RB>::template override<pa<RB>> qb;
static om::use_classes<V, A, RB> more_;
static A oa; static B ob; static M om_; static V ov;
template<class R> static constexpr bool first = std::is_same_v<R, RA>;
template<class R> static bool init;
template<class R> static int call(A& a) { try { return Me<R>::fn(a); } catch (Thrown&) { return -last.kind; } }
template<class R> static int callp(A& a) { try { return Mp<R>::fn(a); } catch (Thrown&) { return -last.kind; } }
template<class R, class T> static int callf(T& a) { try { return Mp<R>::fn(om::final_virtual_ptr<R>(a)); } catch (Thrown&) { return -last.kind; } }
template<class R> static void check() {
    if (!init<R>) {
        sym_assert(call<R>(oa) == -NOT_INIT && callp<R>(ob) == -NOT_INIT && callf<R>(ob) == -NOT_INIT && last.registry == &RegTag<R>::tag, "a registry that is not initialized says so");
        sym_reach("uninitialized"); return;
    }
    nerr = 0;
    sym_assert(call<R>(oa) == DA && call<R>(ob) == (first<R> ? DB : DA) && call<R>(om_) == (first<R> ? DA : DM), "methods of the same name do not share overriders");
    sym_assert(callp<R>(oa) == 10 + DA && callp<R>(ob) == 10 + (first<R> ? DB : DA) && callf<R>(ob) == 10 + (first<R> ? DB : DA) && callf<R>(om_) == 10 + DA, "methods of the same name do not share overriders");
    sym_assert(om::final_virtual_ptr<R>(ob).vptr() == om::virtual_ptr<B, R>(ob).vptr() && R::template static_vptr<B> == om::virtual_ptr<A, R>(ob).vptr(), "v-tables are those of the registry");
    sym_assert(nerr == 0, "no error");
    if (R::has_runtime_checks || !first<R>) sym_assert(first<R> ? call<R>(ov) == -MISSING_CLASS && last.registry == &RegTag<R>::tag : call<R>(ov) == DA, "a class registered in one registry is not registered in the other");
    sym_reach("initialized");
}
// a virtual_ptr of each, kept while the other registry changes
static om::virtual_ptr<A, RA>* ka; static om::virtual_ptr<A, RB>* kb;
alignas(16) static char sa[64], sb[64];
extern "C" void sym_main() {
    for (int step = 0; step < CFG_STEPS; step++) {
        switch (sym_pick(nm("op", step), 4)) {
        case 0: { om::initialize<RA>(); init<RA> = true; ka = new (sa) om::virtual_ptr<A, RA>(ob); break; }
        case 1: { om::initialize<RB>(); init<RB> = true; kb = new (sb) om::virtual_ptr<A, RB>(om_); break; }
        case 2: om::finalize<RA>(); init<RA> = false; ka = nullptr; break;
        case 3: om::finalize<RB>(); init<RB> = false; kb = nullptr; break;
        }
        check<RA>(); check<RB>();
        if (ka) sym_assert(Mp<RA>::fn(*ka) == 10 + DB, "a virtual_ptr does not depend on another registry");
        if (kb) sym_assert(Mp<RB>::fn(*kb) == 10 + DA, "a virtual_ptr does not depend on another registry");
    }
}
