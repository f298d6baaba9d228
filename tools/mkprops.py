import json
I="include/boost/openmethod/"
P=[]
def p(id,title,st,over,text,why,files,mech,state=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech])))
p("C01","A method call runs the overrider overload resolution would pick",
 "After a registry is initialized, calling a method with objects of registered classes runs exactly the overrider that C++ overload resolution on the dynamic types of the virtual arguments would pick: the applicable overrider that, compared with every other applicable overrider, is not worse in any virtual parameter and is better in at least one (a derived class being better than its bases, unrelated classes being neither better nor worse). If no overrider is applicable the call reports no_overrider, and if several are and none is better than all the others it reports ambiguous_call; in neither case does any overrider run. This holds for every inheritance graph (multiple and virtual inheritance included), every set of overriders and every tuple of argument classes.",
 ["inputs","configurations","programs"],"all class graphs, all overrider signatures, all argument tuples, all positions of virtual parameters among non-virtual ones",
 "Tests fix a handful of hierarchies (matrices, roles, one diamond) and call a few tuples; wrong grouping, strides or dominance shows only for particular lattice/overrider/argument combinations.",
 ["initialize.hpp","core.hpp"],[("build_dispatch_tables / build_dispatch_table / select_dominant_overriders / is_more_specific",I+"initialize.hpp"),("method::resolve_uni, resolve_multi_first, resolve_multi_next",I+"core.hpp")],
 [("dispatch_data","v-tables and dispatch tables of a registry",I+"preamble.hpp")])
p("C02","next runs the best of the strictly less specialized overriders",
 "Within an overrider, next runs the most specialized overrider among those that are less specialized than the current one and applicable to everything the current one is applicable to; it never runs the current overrider again nor an overrider that does not accept the arguments. If there is no such overrider, or no single best one, next reports no_overrider or ambiguous_call respectively, and has_next returns true exactly when next would run an overrider.",
 ["inputs","configurations","programs"],"all class graphs and overrider sets; every overrider in them; every call tuple from which it can be reached",
 "Tests follow next along two or three linear chains; 'next' is one pointer per overrider shared by all the cells where it wins, so errors need particular lattices and processing orders.",
 ["initialize.hpp","core.hpp"],[("next selection in build_dispatch_table; 'Setting next pointers' in write_global_data",I+"initialize.hpp"),("method::next, method::has_next",I+"core.hpp")])
p("C03","A failed call reports exactly what was called and never returns",
 "When a call has no applicable overrider, or is ambiguous, the registry's error handler receives exactly one error of the right kind carrying the identity of the method, the number of virtual arguments, and the type ids of the virtual arguments in order. If the handler returns, the program is terminated by abort; if it throws, the exception propagates and later calls behave normally.",
 ["inputs","programs"],"all argument classes, arities, positions of virtual parameters, parameter kinds (virtual_, virtual_ptr, smart virtual_ptr)",
 "Tests check the payload for two arguments of one class, with no non-virtual parameter.",
 ["core.hpp","preamble.hpp"],[("fn_not_implemented, fn_ambiguous, init_bad_call",I+"core.hpp"),("bad_call",I+"preamble.hpp")])
p("C04","Methods sharing classes never disturb each other",
 "The overrider run by a call to one method does not depend on which other methods exist in the registry, on their parameters or on the order in which they are registered. In particular, no two methods, and no two virtual parameters of a method, ever share a v-table entry in any class, for any inheritance graph and any assignment of methods to classes.",
 ["inputs","configurations","programs"],"all class graphs, all placements of several methods' virtual parameters in the graph, all registration orders",
 "One fixed lattice is checked for slot numbers; a collision needs particular multiple-inheritance graphs, methods on particular classes and a particular order of processing.",
 ["initialize.hpp"],[("assign_slots, assign_tree_slots, assign_lattice_slots",I+"initialize.hpp")],
 [("used_slots, reserved_slots","slots taken in a class / in its derived classes",I+"initialize.hpp")])
p("C05","Registration order and repetition are irrelevant",
 "Classes may be registered several times, in any order and incrementally, as long as every direct base appears together with its derived class in at least one registration; overriders and methods may be registered in any order. The outcome of every call, of every next, and the summary returned by initialize are the same for all these registrations of the same program.",
 ["configurations","histories"],"all permutations of registrations, all splittings of the base relation into partial and repeated registrations, all overrider orders",
 "Static-constructor order is fixed in a test binary; a test sees a single order, usually bases first.",
 ["initialize.hpp","core.hpp","detail/static_list.hpp"],[("augment_classes, collect_transitive_bases, calculate_transitive_derived",I+"initialize.hpp"),("use_class_aux",I+"core.hpp")])
p("C06","Re-initialization reflects exactly the current registrations",
 "After any sequence of registrations and un-registrations of classes and overriders (as done by loading and unloading libraries), calling initialize again makes every call and every next behave as if the program had started with exactly the current registrations. Nothing of an earlier initialization remains visible, whatever the number of earlier initializations.",
 ["histories","configurations"],"all sequences, up to the bound, of adding/removing overriders and classes interleaved with initialize",
 "Only one example loads and unloads one library; most tests initialize once.",
 ["initialize.hpp","core.hpp","detail/static_list.hpp","preamble.hpp"],[("write_global_data, finalize",I+"initialize.hpp"),("~overrider_info, ~use_class_aux",I+"preamble.hpp")])
p("C07","The type hash maps registered type ids to distinct, in-range values",
 "For every set of type ids, when the search for hash factors succeeds the hash function maps distinct registered type ids to distinct values, every one within the reported minimum and maximum; when the search gives up, an error giving its effort is reported and the program does not continue with a colliding hash. Every registered type id, including all the aliases of a class, then retrieves the v-table of its own class.",
 ["inputs","configurations"],"all 64-bit type ids, all hash multipliers the random generator may produce",
 "Type ids in tests are addresses of type_info objects, where the first multiplier nearly always works; collisions, retries and growth of the table are practically never exercised.",
 ["policies/fast_perfect_hash.hpp","policies/vptr_vector.hpp"],[("fast_perfect_hash::fn::initialize, hash",I+"policies/fast_perfect_hash.hpp"),("vptr_vector::fn::initialize",I+"policies/vptr_vector.hpp")],
 [("mult, shift, min_value, max_value","hash factors",I+"policies/fast_perfect_hash.hpp")])
p("C08","With runtime checks, an unregistered class is always caught",
 "In a registry with runtime checks, using an object whose class is not registered, in a method call or to make a virtual_ptr, always reports missing_class with the type id of the object and never reads a v-table; an object of a registered class never causes that report. This holds for every type id, registered or not, with the hashed vector and with the map; a plain vector indexed by type id promises it only for ids beyond the largest registered one.",
 ["inputs","configurations"],"all type ids of the offending object, all sets of registered ids, all hash factors",
 "Tests try one unregistered class; whether it is caught depends on where its type id happens to hash.",
 ["policies/fast_perfect_hash.hpp","policies/vptr_vector.hpp","policies/vptr_map.hpp"],[("fast_perfect_hash::fn::check",I+"policies/fast_perfect_hash.hpp"),("vptr_vector::fn::dynamic_vptr",I+"policies/vptr_vector.hpp"),("vptr_map::fn::dynamic_vptr",I+"policies/vptr_map.hpp")])
p("C09","Every v-table lookup policy finds the class's own v-table",
 "For each registered class and each of its type ids, the v-table found from an object (through a hashed vector, a plain vector, a map, direct or indirect pointers, a pointer embedded in the object, one supplied by boost_openmethod_vptr for the class and the registry, or a virtual_ptr) is the one initialize built for that class, so that the same call runs the same overrider under all policies.",
 ["inputs","configurations"],"all type ids within the bound, all combinations of lookup policy and indirection, several type ids per class",
 "Tests use one policy mix per registry with ids that never alias.",
 ["policies/vptr_vector.hpp","policies/vptr_map.hpp","core.hpp"],[("vptr_vector::fn::initialize/dynamic_vptr",I+"policies/vptr_vector.hpp"),("vptr_map::fn::initialize/dynamic_vptr",I+"policies/vptr_map.hpp"),("acquire_vptr, box_vptr, unbox_vptr",I+"core.hpp")])
p("C10","initialize accepts complete registrations and rejects incomplete ones",
 "initialize reports missing_class, naming the class, when and only when a class used as a base, as a virtual parameter of a method or of an overrider, or as the return type of an overrider of a method that itself returns a registered class, is not registered; it reports missing_base when and only when an overrider's virtual parameter is not known to derive from the method's class in the same position, naming the method's class as the base and the overrider's class as the derived class. After either error no method is run and the program does not continue past initialize.",
 ["inputs","configurations","programs"],"all subsets of missing registrations, all class graphs, all overrider signatures",
 "Tests omit one class or one base; they do not look at which classes the error names.",
 ["initialize.hpp","preamble.hpp"],[("augment_classes, augment_methods",I+"initialize.hpp"),("missing_class, missing_base",I+"preamble.hpp")])
p("C11","The initialization report counts cells and gaps exactly",
 "The report returned by initialize gives the number of cells in the dispatch tables of the methods with several virtual parameters, and the number of methods for which some tuple of registered classes has no applicable overrider, and for which some tuple is ambiguous. A report with zero not implemented and zero ambiguous therefore means no call on registered classes can fail.",
 ["inputs","programs"],"all class graphs and overrider sets",
 "Tests assert the counts for a few fixed hierarchies.",
 ["initialize.hpp"],[("report, accumulate, build_dispatch_table(s)",I+"initialize.hpp")])
p("C12","A virtual_ptr always pairs an object with that object's v-table",
 "After any sequence of constructions, copies, moves, conversions, casts and assignments, a plain virtual_ptr points at the object it was last given, with the v-table of that object's dynamic class, and a null one has null object and v-table pointers. Sources of copies are unchanged, and comparison agrees with comparison of the object pointers.",
 ["histories","inputs"],"all operation sequences up to the bound, all dynamic classes, direct and indirect registries",
 "Tests exercise each operation once from one state.",
 ["core.hpp"],[("virtual_ptr<Class, Registry>",I+"core.hpp"),("final_virtual_ptr",I+"core.hpp")])
p("C13","Smart virtual_ptrs keep ownership and v-table in step",
 "A virtual_ptr to a smart pointer (shared, unique, intrusive) owns its object exactly as the smart pointer would: after any sequence of constructions, copies, moves, casts, assignments and resets, every object is destroyed exactly once, when its last owner goes away, and the v-table is that of the owned object, or null when there is none. Moving from a virtual_ptr leaves it null, and assigning a null smart pointer is the same as assigning nullptr. The functions that make an object and a virtual_ptr to it pass their arguments to its constructor unchanged.",
 ["histories","inputs"],"all operation sequences up to the bound, null and non-null operands, all dynamic classes",
 "Tests exercise each operation once, almost always with non-null operands.",
 ["core.hpp","interop/std_shared_ptr.hpp","interop/std_unique_ptr.hpp","interop/boost_intrusive_ptr.hpp"],[("virtual_ptr<SmartPtr, Registry>",I+"core.hpp"),("virtual_traits<...>::cast",I+"interop/std_shared_ptr.hpp")])
p("C14","Embedded v-table pointers follow construction and destruction",
 "In classes using an embedded v-table pointer, at every point of construction and destruction a method call on the object under construction dispatches on the class whose constructor or destructor is currently running, as virtual functions do, and on the most derived class in between. This holds for chains and for multiple and virtual inheritance, through any base reference, direct or indirect. Copying or assigning an object never copies its embedded v-table pointer.",
 ["histories","programs"],"all classes of a set of hierarchies covering chains, multiple and virtual inheritance; calls at every construction and destruction stage; calls through every base",
 "Tests check one chain and one multiple inheritance case.",
 ["inplace_vptr.hpp"],[("inplace_vptr_base, inplace_vptr_derived, boost_openmethod_update_vptr",I+"inplace_vptr.hpp")])
p("C15","Registration lists keep their elements, in order",
 "The lists that hold registered classes, methods and overriders behave as sequences: adding an element puts it at the end, removing one (first, middle, last or only) leaves the others in order, clearing empties it, and iteration, size and emptiness agree; a removed element can be added again. This holds for every sequence of operations.",
 ["histories"],"every valid list state of bounded length and one arbitrary operation (inductive step), plus all operation sequences up to a bound",
 "One test adds and removes a few nodes.",
 ["detail/static_list.hpp"],[("static_list::push_back, remove, clear, iterators",I+"detail/static_list.hpp")],
 [("first, prev_ptr, next_ptr","circular previous links, null-terminated next links",I+"detail/static_list.hpp")])
p("C16","Arguments and results pass through a call unchanged",
 "An overrider receives the very objects passed to the method, correctly adjusted to its own parameter types (including through multiple and virtual inheritance), and all the non-virtual arguments, in every position, with their values and references intact; the value it returns is the value the call yields. This is true for all kinds of virtual parameter: references, pointers, rvalue references, smart pointers, and virtual_ptrs.",
 ["inputs","programs"],"all argument values, dynamic classes, parameter kinds and positions of virtual and non-virtual parameters in the stated set of signatures",
 "Tests use few signatures, nearly all with the virtual parameters first.",
 ["core.hpp","interop/std_shared_ptr.hpp","interop/std_unique_ptr.hpp","policies/std_rtti.hpp"],[("method::operator(), thunk::fn, virtual_traits::cast, optimal_cast",I+"core.hpp")])
p("C17","N2216 resolution never fails and follows covariant return types",
 "With the n2216 option initialize always completes, no call is ever reported ambiguous, and a call that would be ambiguous runs one of the most specialized applicable overriders: the one whose return type derives from those of all the other contenders if there is one, otherwise always the same one. Calls that are not ambiguous run the same overrider as without the option, and calls with no applicable overrider still report no_overrider.",
 ["inputs","configurations","programs"],"all class graphs, overrider sets and return types within the bound",
 "Two tests with two contenders each.",
 ["initialize.hpp"],[("select_dominant_overriders (has_n2216), build_dispatch_table",I+"initialize.hpp")])
p("C18","Registries are isolated from each other",
 "Registering, initializing, re-initializing or finalizing in one registry never changes the outcome of calls, lookups or reports in another registry, even when both use the same classes and type ids. Registries are told apart by their lists of policies; registry types with the same list share one state.",
 ["histories","configurations"],"all interleavings, up to the bound, of operations on two registries sharing classes",
 "Tests give each test case its own registry but never interleave operations on two of them.",
 ["preamble.hpp","policies/vptr_vector.hpp","policies/vptr_map.hpp","policies/fast_perfect_hash.hpp"],[("registry<...> static members, policy fn<Registry> static members",I+"preamble.hpp")])
p("C19","Initialization state is enforced and resources are released",
 "With runtime checks, calling a method or making a virtual_ptr before initialize or after finalize always reports not_initialized, and never does between a successful initialize and the next finalize; a failed initialize does not make the registry initialized. Finalize releases everything initialize allocated, and a registry can be initialized again after it with the same results.",
 ["histories"],"all sequences, up to the bound, of initialize, failed initialize, finalize and uses",
 "Tests check one call before initialize, and one finalize.",
 ["preamble.hpp","initialize.hpp","policies/vptr_vector.hpp","policies/vptr_map.hpp","policies/fast_perfect_hash.hpp"],[("require_initialized",I+"preamble.hpp"),("registry::finalize, compiler::initialize",I+"initialize.hpp")])
p("C20","final constructs trust, and with checks verify, the static type",
 "A virtual_ptr made by a 'final' construct designates the given object with the v-table of its static class, whether or not the class is polymorphic. With runtime checks, and only then, using it on an object whose class (as identified by the rtti policy) is not the static class reports final_error carrying both type ids, and never yields a virtual_ptr; matching classes never report an error, whichever of their type ids the object carries.",
 ["inputs","configurations"],"all static/dynamic class pairs, plain and smart pointers, direct and indirect registries, with and without checks",
 "One mismatch is tested.",
 ["core.hpp","preamble.hpp"],[("final_virtual_ptr",I+"core.hpp"),("final_error",I+"preamble.hpp")])
p("C21","Indirect virtual_ptrs survive re-initialization",
 "In a registry with indirect v-table pointers, virtual_ptrs and embedded v-table pointers obtained at any time after a first initialize remain valid after classes and overriders are added or removed and initialize is called again: a call through them runs the overrider the current registrations designate.",
 ["histories","configurations"],"all changes of registrations up to the bound between obtaining a pointer and using it",
 "One example program loads one library.",
 ["core.hpp","policies/vptr_vector.hpp","policies/vptr_map.hpp","inplace_vptr.hpp"],[("box_vptr/unbox_vptr, use_indirect_vptrs",I+"core.hpp"),("has_indirect_vptr branches",I+"policies/vptr_vector.hpp")])
p("C22","Tracing and output never change behaviour, and numbers print exactly",
 "Calling initialize with tracing, on or off, produces the same dispatch, next and report as without it, and the environment variable turns tracing on only when it is exactly '1'. The output stream used for diagnostics writes every unsigned number in decimal and every pointer in hexadecimal exactly, and writes nothing when it is off; initialize writes nothing unless tracing is on.",
 ["inputs","configurations"],"all 64-bit numbers and pointers, all values of the environment variable up to a length, trace on/off over all small class graphs",
 "Tests run with trace from the environment, off in practice.",
 ["initialize.hpp","detail/ostdstream.hpp","preamble.hpp"],[("trace_stream",I+"initialize.hpp"),("ostdstream operator<<",I+"detail/ostdstream.hpp"),("trace::from_env",I+"preamble.hpp")])
p("C23","Custom and deferred type information is honoured",
 "With a user-supplied rtti policy, classes are identified only through that policy: several type ids that the policy maps to the same identity denote one class, ids are opaque values that may be any integer, and with a deferred policy ids are read when initialize runs and not before, so ids assigned by later static constructors are used. Dispatch is then the same as with standard rtti.",
 ["inputs","configurations"],"all assignments of type ids and identities to classes within the bound, before and after deferral",
 "Tests use two fixed custom rtti systems with small consecutive ids.",
 ["initialize.hpp","core.hpp","policies/static_rtti.hpp"],[("resolve_type_ids, has_deferred_static_rtti",I+"core.hpp"),("class_map by type_index",I+"initialize.hpp")])
p("C24","The error handler in place receives every error, once",
 "Each error detected by the library is delivered exactly once to the handler currently installed in that registry, as the alternative of the error variant that corresponds to the error and with its data intact; installing a handler, even from a static constructor, returns the previous one. When the handler returns, the program is aborted; a registry without an error handler aborts without further effect.",
 ["histories","inputs"],"all sequences of handler installations and errors up to the bound, all error kinds and payloads",
 "Tests install one handler and raise a few errors.",
 ["policies/default_error_handler.hpp","core.hpp","preamble.hpp"],[("default_error_handler::fn::error, set",I+"policies/default_error_handler.hpp")])
p("C25","Inconsistent runtime-check settings are detected",
 "When translation units of one program were compiled with inconsistent definitions of the default registry, initialize reports odr_violation and the program does not continue; a consistent program never gets that error.",
 ["configurations","programs"],"all numbers of distinct definitions observed",
 "One pair of programs mixes two settings.",
 ["preamble.hpp","initialize.hpp","default_registry.hpp"],[("odr_check, initialize",I+"initialize.hpp")])
p("C26","Ill-formed uses are rejected at compile time",
 "Non-polymorphic virtual parameters without an alternative source of v-tables, repeated or inaccessible inheritance, mismatched virtual_ptr categories or registries, and overriders that match no method fail to compile, and well-formed uses compile.",
 ["programs"],"all programs",
 "A dozen compile-fail snippets.",
 ["core.hpp","macros.hpp"],[("validate_method_parameter, validate_overrider_parameter, is_unambiguous_accessible_base_of",I+"core.hpp")])
p("C27","Policies can be added, replaced and removed in a registry",
 "Deriving a registry with or without given policies yields a registry holding exactly the resulting policies, at most one per category (adding a policy that is there already changes nothing), and each policy sees the registry it ends up in: calls, errors, runtime checks, v-table lookups and finalization behave accordingly.",
 ["programs","configurations","inputs"],"all policy lists, all arguments of calls in the resulting registries",
 "A few static assertions on two registries.",
 ["preamble.hpp"],[("with_aux, without_aux, get_policy_aux",I+"preamble.hpp")])
p("C28","Programs written with the macros behave as declared",
 "In a program of any number of translation units, a method declared with BOOST_OPENMETHOD can be called by its name, in its namespace, with the arguments it declares; overloads, and methods of the same name in several namespaces, are distinct methods. An overrider defined with any of the macros, in any namespace, is added to the one method of its name that accepts its arguments, exactly once however many translation units see it; within it fn, next and has_next designate it and its next overrider, and its container designates it from outside. The classes listed in BOOST_OPENMETHOD_CLASSES are registered with their bases. The order of the translation units is irrelevant.",
 ["inputs","programs","configurations"],"all subsets of the overriders and all arguments of a program that uses every macro, in several orders of its translation units and registries",
 "Each test uses one or two macros in one translation unit, with one argument of each class.",
 ["macros.hpp","core.hpp","default_registry.hpp"],[("BOOST_OPENMETHOD, BOOST_OPENMETHOD_OVERRIDE and the other macros",I+"macros.hpp"),("override_impl::override_impl",I+"core.hpp"),("default_registry, indirect_registry",I+"default_registry.hpp")])
p("C29","User-written policies are given every class and every option, and decide",
 "Each time initialize succeeds it initializes the registry's vptr policy, and the type hash policy a vptr_vector uses, exactly once, giving it every registered class exactly once, with all its type ids and no other and a reference to its v-table pointer, and the options passed to initialize, unchanged; finalize calls finalize once in each policy that has it, with its own options. A call finds the v-table through the policy, and runs the same overrider whatever the policy does inside; the trace goes to the output policy, and only if it is on.",
 ["configurations","inputs","histories"],"all class graphs within the bound, all type ids, several lists of options with all values, several initializations, several numberings by a user-written hash",
 "Tests use one user-written policy, which looks at neither the options nor the type ids.",
 ["initialize.hpp","preamble.hpp","policies/vptr_vector.hpp"],[("generic_compiler::class_, install_global_tables",I+"initialize.hpp"),("registry::finalize",I+"initialize.hpp"),("InitializeContext, VptrFn, TypeHashFn",I+"preamble.hpp")])
p("C30","Calls can be made from several threads at once",
 "After initialize, making calls (successful or not), calling next and has_next, and creating, copying, converting and using virtual_ptrs modify nothing that other threads can see, other than with atomic operations: any number of threads can do so at the same time, and each call runs the overrider it would run alone.",
 ["schedules","inputs","programs"],"all interleavings of calls in any number of threads, all arguments, all programs within the bound, all vptr policies of the library",
 "The tests are single-threaded.",
 ["core.hpp","policies/vptr_vector.hpp","policies/vptr_map.hpp","policies/fast_perfect_hash.hpp"],[("method::operator(), method::resolve, fn_not_implemented, fn_ambiguous, virtual_ptr",I+"core.hpp"),("vptr_vector::dynamic_vptr",I+"policies/vptr_vector.hpp"),("fast_perfect_hash::hash",I+"policies/fast_perfect_hash.hpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
