// C20: final constructs, for any type ids.
#include "world.hpp"
static uint64_t mine;
struct any_rtti : pol::rtti {
    template<class R> struct fn : pol::rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_base_of_v<Obj, T>;
        template<class T> static type_id static_type() { static char tag; if constexpr (std::is_base_of_v<Obj, T>) return (type_id)(uintptr_t)mine; else return &tag; }
        template<class T> static type_id dynamic_type(const T& o) { if constexpr (std::is_base_of_v<Obj, T>) return o.type; else return static_type<T>(); }
#ifdef CFG_ALIASES
        static uint64_t type_index(type_id t) { return (uintptr_t)t & ~0xf000ull; } // bits 12 to 15 do not matter
#endif
    };
};
using Reg = om::registry<any_rtti, pol::vptr_map<>, rec_errors CFG_MORE>;
struct Der : Obj { Der(type_id t) : Obj{t} {} };
using VO = om::virtual_ptr<Obj, Reg>;
struct Id; using Me = om::method<Id, int(VO), Reg>; static int body(VO) { return 7; } static Me::override<body> r0;
static om::detail::class_info ci; static type_id bases[1];
extern "C" void sym_main() {
    mine = sym_u64("static", 0, ~0ull);
    ci.type = (type_id)(uintptr_t)mine; bases[0] = ci.type; ci.first_base = bases; ci.last_base = bases + 1; ci.static_vptr = &Reg::static_vptr<Obj>; ci.is_abstract = false;
    Reg::classes.push_back(ci);
    Me::fn.vp_begin[0] = ci.type; Me::override_aux<&body, decltype(&body)>::impl.vp_begin[0] = ci.type;
    om::initialize<Reg>();
    uint64_t dyn = sym_u64("dynamic", 0, ~0ull); Obj o{(type_id)(uintptr_t)dyn};
#ifdef CFG_ALIASES
    bool same = ((dyn ^ mine) & ~0xf000ull) == 0;
#else
    bool same = dyn == mine;
#endif
    nerr = 0; bool thrown = false; last = Err();
    try { auto p = om::final_virtual_ptr<Reg>(o); sym_assert(p.get() == &o && p.vptr() == Reg::static_vptr<Obj> && Me::fn(p) == 7, "the object, with the v-table of its static class"); } catch (Thrown&) { thrown = true; }
    bool want = Reg::has_runtime_checks && !same;
    sym_assert(thrown == want && nerr == (int)want, "an error is reported if and only if the types differ");
    if (thrown) { sym_assert(last.kind == FINAL && (uint64_t)(uintptr_t)last.a == mine && (uint64_t)(uintptr_t)last.b == dyn, "the error carries both types"); sym_reach("mismatch"); } else sym_reach("accepted");
}
