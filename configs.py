"""What each check explores: harness, compile-time parameters, bounds, labels that must be reached."""
def cfg(name, harness, flags='', reach=(), bounds='', tier=None, **kw):
    d = dict(name=name, harness=harness, flags=flags.split() if isinstance(flags, str) else flags, reach=list(reach), bounds=bounds, **kw)
    if tier: d['tier'] = tier
    return d
PROPERTIES = {}
LARGE = 'larger programs: chains, stars, trees, chains of diamonds, grids, layers and fans, registered in three orders'
def large(name, mode, n, shape, reach, more='', **kw):
    return cfg('large_' + name, 'large.cpp', '-DCFG_MODE=%d -DCFG_N=%d -DCFG_SHAPE=%s %s' % (mode, n, shape, more), reach, engine=['--steps', '3000000000'], **kw)
R3 = ('ran', 'no_overrider', 'ambiguous')
def huge(n, t, reg='reg_vec', more='', **kw):
    return cfg('huge_n%d_t%d%s' % (n, t, reg[3:] if reg != 'reg_vec' else ''), 'huge.cpp', '-DCFG_N=%d -DCFG_T=%d -DCFG_SHAPES=3 -DCFG_REG=%s' % (n, t, reg), R3 + ('next', 'no next') + (('slots',) if t else ()), engine=['--steps', '3000000000'], **kw)
PROPERTIES['C01'] = dict(
    bounds='all labelled acyclic inheritance graphs (every registration order) of up to 4 classes (3 for three-way methods), all overrider sets of up to 3 overriders (2 when 4 classes and two virtual parameters), all roots, all argument classes; plus a 5-class hierarchy with a join at depth 3, all triples of overriders; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): 70 classes and 70 overriders of one parameter, 12 classes and 72 overriders of two, 9 classes with any additional edge and 9 overriders of two, 7 classes and overriders of three, 6 of four; 270 classes (two levels, with a join, one chain) with up to 270 overriders of one and of two parameters',
    outside='more classes, overriders or virtual parameters',
    configs=[
        cfg('uni_n4_k3', 'dispatch.cpp', '-DCFG_N=4 -DCFG_K=3 -DCFG_SHAPE=Uni', R3),
        cfg('uni2_n3_k3', 'dispatch.cpp', '-DCFG_N=3 -DCFG_K=3 -DCFG_SHAPE=Uni2', R3),
        cfg('bi_n3_k3', 'dispatch.cpp', '-DCFG_N=3 -DCFG_K=3 -DCFG_SHAPE=Bi', R3),
        cfg('bi_join_k3', 'dispatch.cpp', '-DCFG_N=5 -DCFG_K=3 -DCFG_SHAPE=Bi -DCFG_EDGES=0x304 -DCFG_ROOT=0', R3),
        cfg('bimid_n3_k2', 'dispatch.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=BiMid', R3),
        cfg('tri_n3_k2', 'dispatch.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=Tri', R3),
    ] + [
        large('uni70', 1, 70, 'Uni', R3),
        large('bi_k72', 1, 12, 'Bi', R3, '-DCFG_K=72'),
        large('bi9_edge', 1, 9, 'Bi', R3, '-DCFG_EXTRA=1'),
        large('tri7', 1, 7, 'Tri', R3),
        large('quad6', 1, 6, 'Quad', R3),
        huge(270, 0), huge(700, 0, tier='thorough'),
        large('bi12_edge', 1, 12, 'Bi', R3, '-DCFG_EXTRA=1', tier='thorough'),
    ])
PROPERTIES['C02'] = dict(
    bounds='as C01: all labelled acyclic graphs of up to 4 classes, up to 3 overriders, one or two virtual parameters; every overrider that a call can run; all arguments it accepts; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): 70 classes and 70 overriders of one parameter, 12 classes and 72 overriders of two, 9 classes with any additional edge and 9 overriders of two, 7 classes and overriders of three, 6 of four; 270 classes (two levels, with a join, one chain) with up to 270 overriders of one and of two parameters',
    outside='more classes, overriders or virtual parameters',
    configs=[
        cfg('uni_n4_k3', 'next.cpp', '-DCFG_N=4 -DCFG_K=3 -DCFG_SHAPE=Uni', ('next', 'none', 'ambiguous')),
        cfg('bi_n3_k3', 'next.cpp', '-DCFG_N=3 -DCFG_K=3 -DCFG_SHAPE=Bi', ('next', 'none', 'ambiguous')),
        cfg('bi_n4_k2', 'next.cpp', '-DCFG_N=4 -DCFG_K=2 -DCFG_SHAPE=Bi', ('next', 'none')),
        cfg('bi_join_k3', 'next.cpp', '-DCFG_N=5 -DCFG_K=3 -DCFG_SHAPE=Bi -DCFG_EDGES=0x304 -DCFG_ROOT=0', ('next', 'none', 'ambiguous')),
        cfg('trimid_n2_k3', 'next.cpp', '-DCFG_N=2 -DCFG_K=3 -DCFG_SHAPE=TriMid', ('next', 'none')),
    ] + [
        large('uni70', 6, 70, 'Uni', ('next', 'none', 'ambiguous')),
        large('bi_k72', 6, 12, 'Bi', ('next', 'none', 'ambiguous'), '-DCFG_K=72'),
        huge(270, 0), huge(700, 0, tier='thorough'),
        large('bi9_edge', 6, 9, 'Bi', ('next', 'none', 'ambiguous'), '-DCFG_EXTRA=1'),
        large('tri7', 6, 7, 'Tri', ('next', 'none', 'ambiguous')),
        large('quad6', 6, 6, 'Quad', ('next', 'none', 'ambiguous')),
    ])
RN = R3 + ('next',)
PROPERTIES['C03'] = dict(
    bounds='all acyclic graphs of up to 3 classes (5 shapes of methods with 1 to 3 virtual parameters, first, middle and last among the parameters), up to 2 overriders, all arguments, handlers that throw and handlers that return; all dynamic classes of a real hierarchy, with parameters of every kind (references, pointers, smart pointers, virtual_ptrs, the macros), and methods with 16 and 18 virtual parameters',
    outside='more classes, overriders or virtual parameters',
    configs=[cfg(s.lower(), 'badcall.cpp', '-DCFG_N=%d -DCFG_K=2 -DCFG_SHAPE=%s' % (n, s), ('no_overrider', 'ambiguous', 'abort', 'later') if s not in ('Uni', 'Uni2') or n >= 3 else ()) for s, n in (('Uni', 4), ('Uni2', 3), ('Bi', 3), ('BiMid', 3), ('Tri', 2), ('TriMid', 2))] + [
        cfg('params', 'badparams.cpp', '', ('reference', 'pointer', 'virtual_ptr', 'shared_ptr', 'shared_virtual_ptr', 'unique_ptr', 'rvalue', 'offset base', 'macro', 'sixteen', 'eighteen', 'ambiguous', 'no_overrider')),
    ])
PROPERTIES['C04'] = dict(
    bounds='three methods: all acyclic graphs of 4 classes with three methods of one parameter, all graphs of 4 classes whose bases are registered first with methods of 1, 2 and 1 parameters, all graphs of 3 classes with methods of 2, 2 and 1 parameters and any order of the methods, 5 classes registered bases first with three methods; all placements of the parameters, one overrider per method (two for 3 classes); larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): 70 methods on 9 and on 30 classes, 12 methods on 9 classes with any additional edge; 283 methods on 20 classes',
    outside='more classes, more methods',
    configs=[
        cfg('uni3_n4', 'share.cpp', '-DCFG_N=4 -DCFG_K=1 -DCFG_S0=Uni -DCFG_S1=Uni2 -DCFG_S2=Uni', ('common', 'a', 'b', 'c')),
        cfg('bi_n4', 'share.cpp', '-DCFG_N=4 -DCFG_K=1 -DCFG_S0=Uni -DCFG_S1=Bi -DCFG_S2=Uni -DCFG_ORDERED=1', ('common', 'a', 'b', 'c')),
        cfg('uni_k2_n3', 'share.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_S0=Uni -DCFG_S1=Bi -DCFG_S2=Uni -DCFG_ORDERED=1', ('common', 'a', 'b', 'c')),
        cfg('bi2_order_n3', 'share.cpp', '-DCFG_N=3 -DCFG_K=1 -DCFG_S0=Bi -DCFG_S1=Bi -DCFG_S2=Uni -DCFG_ORDER=1', ('common', 'a', 'b', 'c')),
        cfg('uni3_n5', 'share.cpp', '-DCFG_N=5 -DCFG_K=1 -DCFG_S0=Uni -DCFG_S1=Uni -DCFG_S2=Uni -DCFG_ORDERED=1', ('common', 'a', 'b', 'c')),
        cfg('uni3_n5_any', 'share.cpp', '-DCFG_N=5 -DCFG_K=1 -DCFG_S0=Uni -DCFG_S1=Uni -DCFG_S2=Uni', ('common', 'a', 'b', 'c'), tier='thorough'),
    ] + [
        large('t70_n9', 2, 9, 'Uni', ('ran',), '-DCFG_T=70'),
        large('t70_n30', 2, 30, 'Uni', ('ran',), '-DCFG_T=70'),
        huge(20, 280), huge(20, 700, tier='thorough'),
        large('t12_edge', 2, 9, 'Uni', ('ran',), '-DCFG_T=12 -DCFG_EXTRA=1'),
    ])
PROPERTIES['C05'] = dict(
    bounds='all acyclic graphs of 3 classes registered by up to 3 registrations (any split of the bases among repeated registrations, any order), 2 overriders in any order, one or two virtual parameters; 4 classes with up to 2 registrations each and one overrider; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): registered with their direct bases, with all their bases, or in two steps: 12 classes with 12 overriders of one or two parameters, 6 classes with any additional edge',
    outside='more classes or registrations; dynamic libraries (registrations are made through the same objects)',
    configs=[
        cfg('uni_n3_t3', 'reorder.cpp', '-DCFG_N=3 -DCFG_T=3 -DCFG_K=2 -DCFG_SHAPE=Uni', RN),
        cfg('bi_n3_t2', 'reorder.cpp', '-DCFG_N=3 -DCFG_T=2 -DCFG_K=2 -DCFG_SHAPE=Bi', RN),
        cfg('uni_n4_t2', 'reorder.cpp', '-DCFG_N=4 -DCFG_T=2 -DCFG_K=1 -DCFG_SHAPE=Uni', ('ran', 'no_overrider')),
    ] + [
        large('uni12', 5, 12, 'Uni', RN),
        large('bi12', 5, 12, 'Bi', RN),
        large('bi6_edge', 5, 6, 'Bi', RN, '-DCFG_EXTRA=1'),
        large('bi7_edge', 5, 7, 'Bi', RN, '-DCFG_EXTRA=1', tier='thorough'),
    ])
PROPERTIES['C06'] = dict(
    bounds='all acyclic graphs of up to 4 classes; up to 3 initializations, with any overriders and classes added or removed in between; 2 overriders; one or two virtual parameters; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): a third of the overriders removed, and partly added again: 12 classes with 12 overriders, 6 classes with any additional edge',
    outside='longer histories',
    configs=[
        cfg('uni_n4_s2', 'reinit.cpp', '-DCFG_N=4 -DCFG_K=2 -DCFG_STEPS=2 -DCFG_SHAPE=Uni', RN),
        cfg('bi_n3_s3', 'reinit.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_STEPS=3 -DCFG_SHAPE=Bi', RN),
    ] + [
        large('bi12', 4, 12, 'Bi', RN),
        large('uni12', 4, 12, 'Uni', RN),
        large('bi6_edge', 4, 6, 'Bi', RN, '-DCFG_EXTRA=1'),
        large('bi7_edge', 4, 7, 'Bi', RN, '-DCFG_EXTRA=1', tier='thorough'),
    ])
H7 = 'registered type ids are arbitrary 64-bit values: up to 3 classes of one type id and 2 classes of up to 2 type ids (thorough: 4 classes), search of up to about 4 attempts (900 instructions)'
PROPERTIES['C07'] = dict(
    bounds=H7 + '; up to 40 classes of one to three type ids, in 6 layouts, searches of up to 8,000,000 instructions (thorough: 100,000,000); failing search: one class with 18 type ids, 400,000 attempts',
    outside='longer searches on arbitrary ids: each attempt resets the state it uses, the multipliers of the generator are those of the first attempts',
    configs=[
        cfg('hash_n3', 'hash.cpp', '-DCFG_N=3 -DCFG_ALIASES=1 -DCFG_BUDGET=900 -DCFG_HASHER=1', ('found',)),
        cfg('hash_n2_a2', 'hash.cpp', '-DCFG_N=2 -DCFG_ALIASES=2 -DCFG_BUDGET=900 -DCFG_HASHER=1', ('found',)),
        cfg('hash_rc_n3', 'hash.cpp', '-DCFG_N=3 -DCFG_ALIASES=1 -DCFG_BUDGET=900 -DCFG_HASHER=1 -DCFG_REG=reg_hash_rc', ('found',)),
        cfg('vector_n3', 'hash.cpp', '-DCFG_N=3 -DCFG_ALIASES=1 -DCFG_BUDGET=900 -DCFG_HASHER=0', ('found',)),
        cfg('vector_n2_a2', 'hash.cpp', '-DCFG_N=2 -DCFG_ALIASES=2 -DCFG_BUDGET=900 -DCFG_HASHER=0', ('found',)),
        cfg('ivector_n2_a2', 'hash.cpp', '-DCFG_N=2 -DCFG_ALIASES=2 -DCFG_BUDGET=900 -DCFG_HASHER=0 -DCFG_REG=reg_ihash', ('found',)),
        cfg('hash_n4', 'hash.cpp', '-DCFG_N=4 -DCFG_ALIASES=1 -DCFG_BUDGET=900 -DCFG_HASHER=1', ('found',), tier='thorough'),
        cfg('many', 'hashmany.cpp', '-DCFG_N=40 -DCFG_ANY_N=1 -DCFG_BUDGET=8000000 -DCFG_STRANGER=0', ('found',), engine=['--steps', '3000000000']),
        cfg('many_rc', 'hashmany.cpp', '-DCFG_N=40 -DCFG_ANY_N=1 -DCFG_BUDGET=100000000 -DCFG_STRANGER=0 -DCFG_REG=reg_hash_rc', ('found',), engine=['--steps', '3000000000'], tier='thorough'),
        cfg('fail', 'hashfail.cpp', '-DCFG_ALIASES=18 -DCFG_STRIDES=2 -DCFG_REG=reg_hash', ('reported',), engine=['--steps', '3000000000']),
        cfg('fail_rc', 'hashfail.cpp', '-DCFG_ALIASES=18 -DCFG_STRIDES=2 -DCFG_REG=reg_hash_rc', ('reported',), engine=['--steps', '3000000000']),
        cfg('fail_strides', 'hashfail.cpp', '-DCFG_ALIASES=18 -DCFG_STRIDES=4 -DCFG_REG=reg_hash_rc', ('reported',), engine=['--steps', '3000000000'], tier='thorough'),
    ])
ST = ('registered', 'stranger', 'unloaded')
PROPERTIES['C08'] = dict(
    bounds='the type id of the offending object is any 64-bit value; ' + H7 + '; 6 layouts of the type ids of 3 classes (small, zero, addresses, highest, spread), before and after classes are unloaded; up to 24 classes of one to three type ids in 6 layouts; calls with one and two virtual parameters, virtual_ptr construction, conversion and assignment; handlers that throw and that return',
    outside='hash factors found after more attempts; final constructs (C20)',
    configs=[cfg(n, 'stranger.cpp', '-DCFG_N=3 -DCFG_REG=%s %s' % (n, f), ST) for n, f in
        [(r, '-DCFG_LAYOUTS=6') for r in ('reg_hash_rc', 'reg_ihash_rc', 'reg_map_rc', 'reg_imap_rc', 'reg_omap_rc')] + [(r, '-DCFG_LAYOUTS=2 -DCFG_PLAIN=1') for r in ('reg_vec_rc', 'reg_ivec_rc')]] + [
        cfg('many_ids', 'hashmany.cpp', '-DCFG_N=24 -DCFG_ANY_N=1 -DCFG_BUDGET=8000000 -DCFG_STRANGER=1 -DCFG_REG=reg_hash_rc', ('found', 'stranger'), engine=['--steps', '3000000000']),
        cfg('any_ids_n3', 'hash.cpp', '-DCFG_N=3 -DCFG_ALIASES=1 -DCFG_BUDGET=900 -DCFG_HASHER=0 -DCFG_REG=reg_hash_rc -DCFG_STRANGER=1', ('found', 'stranger')),
        cfg('any_ids_n2_a2', 'hash.cpp', '-DCFG_N=2 -DCFG_ALIASES=2 -DCFG_BUDGET=500 -DCFG_HASHER=0 -DCFG_REG=reg_hash_rc -DCFG_STRANGER=1', ('found', 'stranger')),
    ])
LK = R3 + ('virtual_ptr',)
HK = ('nodes', 'policy', 'hook', 'pointer', 'shared', 'indirect', 'ambiguous')
PROPERTIES['C09'] = dict(
    bounds='all acyclic graphs of 3 classes with up to 2 type ids each, 2 overriders, a method on virtual_ptrs, all arguments (vector, map, direct and indirect); a diamond of 4 classes for the hashed vector; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): 40 classes and 40 overriders under every policy; v-table pointers supplied by boost_openmethod_vptr for classes with and without virtual functions, in registries with and without a vptr policy, all objects, all kinds of virtual parameters and virtual_ptrs',
    outside='more classes; a boost_openmethod_vptr that returns by value in an indirect registry; arbitrary type ids for the hashed vector are in C07',
    configs=[cfg(r, 'lookup.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=Uni -DCFG_ALIASES=2 -DCFG_REG=' + r, LK) for r in ('reg_vec', 'reg_map', 'reg_ivec', 'reg_imap', 'reg_vec_rc', 'reg_map_rc')] +
            [cfg(r, 'lookup.cpp', '-DCFG_N=4 -DCFG_K=2 -DCFG_SHAPE=Uni -DCFG_ALIASES=2 -DCFG_EDGES=0x30 -DCFG_REG=' + r, LK) for r in ('reg_hash', 'reg_hash_rc', 'reg_ihash')] +
            [cfg('bi_' + r, 'lookup.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=Bi -DCFG_ALIASES=1 -DCFG_REG=' + r, LK, tier='thorough') for r in ('reg_vec', 'reg_map', 'reg_ivec', 'reg_imap')] + [
        cfg('hook', 'hook.cpp', '', HK), cfg('hook_rc', 'hook.cpp', '-DCFG_CHECKS=,pol::runtime_checks', HK),
        *[large(r, 1, 40, 'Uni', R3, '-DCFG_REG=reg_' + r + (' -DCFG_CONCRETE=1' if 'hash' in r else '')) for r in ('map', 'ivec_rc', 'imap_rc', 'hash', 'ihash_rc')],
    ])
PROPERTIES['C10'] = dict(
    bounds='all acyclic graphs of 3 classes, any of them unregistered, any bases unlisted; 2 overriders of one parameter, one of two; overriders with class return types',
    outside='more classes',
    configs=[
        cfg('uni_k2', 'incomplete.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=Uni', ('missing_class', 'missing_base', 'complete')),
        cfg('bi_k1', 'incomplete.cpp', '-DCFG_N=3 -DCFG_K=1 -DCFG_SHAPE=Bi', ('missing_class', 'missing_base', 'complete')),
        cfg('ret', 'incomplete.cpp', '-DCFG_N=3 -DCFG_K=1 -DCFG_SHAPE=Uni -DCFG_RET=1', ('missing_class', 'missing_base', 'complete')),
    ])
PROPERTIES['C11'] = dict(
    bounds='two methods in a registry: all acyclic graphs of 3 classes, any of them abstract, with methods of one and two parameters and up to 3 overriders, the two-parameter method with non-virtual parameters between; three parameters over 2 classes; 4 classes with a two-parameter method and 2 overriders; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration): 70 classes and overriders of one parameter, 12 classes and 72 overriders of two, 8 classes with any additional edge',
    outside='more classes',
    configs=[
        cfg('bi_uni', 'report.cpp', '-DCFG_N=3 -DCFG_S0=Bi -DCFG_K0=2 -DCFG_S1=Uni -DCFG_K1=1 -DCFG_FIXED1 -DCFG_ABSTRACT=8', ('gaps', 'complete', 'two')),
        cfg('uni_uni', 'report.cpp', '-DCFG_N=3 -DCFG_S0=Uni -DCFG_K0=2 -DCFG_S1=Uni -DCFG_K1=1 -DCFG_ABSTRACT=8', ('gaps', 'complete', 'two')),
        cfg('bi_bimid', 'report.cpp', '-DCFG_N=3 -DCFG_S0=Bi -DCFG_K0=1 -DCFG_S1=BiMid -DCFG_K1=1 -DCFG_ABSTRACT=1', ('gaps', 'complete', 'two')),
        cfg('bi_k3', 'report.cpp', '-DCFG_N=3 -DCFG_S0=Bi -DCFG_K0=3 -DCFG_S1=Uni -DCFG_K1=1 -DCFG_FIXED1 -DCFG_ABSTRACT=1', ('gaps', 'complete', 'two')),
        cfg('tri', 'report.cpp', '-DCFG_N=2 -DCFG_S0=Tri -DCFG_K0=2 -DCFG_S1=Uni -DCFG_K1=1 -DCFG_FIXED1 -DCFG_ABSTRACT=1', ('gaps', 'complete')),
        cfg('bi_n4', 'report.cpp', '-DCFG_N=4 -DCFG_S0=Bi -DCFG_K0=2 -DCFG_S1=Uni -DCFG_K1=1 -DCFG_FIXED1 -DCFG_ABSTRACT=1', ('gaps', 'complete', 'two')),
    ] + [
        large('uni70', 3, 70, 'Uni', ('complete', 'gaps', 'ambiguous')),
        large('bi_k72', 3, 12, 'Bi', ('complete', 'gaps', 'ambiguous'), '-DCFG_K=72'),
        large('bi8_edge', 3, 8, 'Bi', ('complete', 'gaps', 'ambiguous'), '-DCFG_EXTRA=1'),
    ])
PROPERTIES['C12'] = dict(
    bounds='six virtual_ptrs (base, derived, multiply and virtually derived classes, const), 5 objects of 4 dynamic classes, all sequences of 3 operations (2 for the hashed vectors) among 27',
    outside='longer sequences',
    configs=[cfg(n, 'vptrs.cpp', ['-DCFG_STEPS=%d' % s, '-DHIER_POLICIES=' + p], ('called', 'null'), **k) for n, s, p, k in (
        ('map', 3, 'pol::vptr_map<>', {}), ('indirect_map', 3, 'pol::vptr_map<>,pol::indirect_vptr', {}),
        ('hash', 2, 'pol::fast_perfect_hash,pol::vptr_vector', {}), ('rc_hash', 2, 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', {}),
        ('rc_indirect_hash', 2, 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks,pol::indirect_vptr', {}),
        ('rc_map', 3, 'pol::vptr_map<>,pol::runtime_checks', dict(tier='thorough')))])
SPN = ('shared', 'unique', 'intrusive')
PROPERTIES['C13'] = dict(
    bounds='shared, unique and intrusive pointers; four smart virtual_ptrs (base twice, derived, multiply derived) and two smart pointers, objects of 4 dynamic classes, from empty or from populated pointers, all sequences of 2 operations (thorough: 3) among 43 (26 for unique pointers), direct and indirect v-table pointers; with runtime checks, also giving them objects of unregistered classes',
    outside='longer sequences, several threads, casts of empty unique pointers (a precondition)',
    configs=[cfg(SPN[sp] + '_' + n, 'smart.cpp', ['-std=' + ('c++20' if n == 'cxx20' else 'c++17'), '-DCFG_SP=%d' % sp, '-DCFG_STEPS=%d' % s, '-DHIER_POLICIES=' + p], ('held', 'null', 'by value', 'raw by value', 'made') + (() if sp == 1 else ('by reference',)) + (('refused',) if 'runtime' in p else ()), heap=True, **k)
             for sp in (0, 1, 2) for n, s, p, k in (('cxx20', 2, 'pol::vptr_map<>', {}),
        ('map', 2, 'pol::vptr_map<>', {}), ('rc_indirect', 2, 'pol::vptr_map<>,pol::indirect_vptr,pol::runtime_checks', {}), ('hash', 2, 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', {}),
        ('map3', 3, 'pol::vptr_map<>', dict(tier='thorough')), ('rc_indirect3', 3, 'pol::vptr_map<>,pol::indirect_vptr,pol::runtime_checks', dict(tier='thorough')))])
PROPERTIES['C14'] = dict(
    bounds='a chain of 3 classes, a class deriving from two roots, a class deriving from that one and from a third root, a class deriving directly from three, and a class deriving from that one; every constructor and destructor calls the methods on itself through each root; all sequences of 4 (some configurations: 3) operations (create, destroy, copy, sliced copy, assign, sliced assign) on two objects in storage that is not cleared; direct and indirect pointers, polymorphic and plain classes',
    outside='classes with a virtual base (see the known finding)',
    configs=[cfg(n, 'inplace.cpp', '-DCFG_STEPS=%d %s' % (s, f), ('called', 'sliced', 'assigned', 'three bases'), **k) for n, s, f, k in (
        ('direct', 4, '', {}), ('indirect', 4, '-DCFG_INDIRECT', {}), ('rc', 3, '-DIN_POLICIES=,pol::runtime_checks', {}), ('plain', 3, '-DCFG_VIRTUAL=0', {}), ('rc_indirect', 3, '-DCFG_INDIRECT -DIN_POLICIES=,pol::runtime_checks', {}),
        ('direct5', 5, '', dict(tier='thorough')), ('indirect5', 5, '-DCFG_INDIRECT', dict(tier='thorough')))] +
        [cfg('virtual_base', 'inplace_virtual.cpp', '', ('called',))])
PROPERTIES['C15'] = dict(
    bounds='lists of up to 5 elements, all sequences of 8 operations (add, remove, clear); thorough: 6 elements, 9 operations',
    outside='longer sequences',
    configs=[cfg('list_n5', 'lists.cpp', '-DCFG_N=5 -DCFG_STEPS=8', ('first', 'added', 'only', 'remove first', 'remove middle', 'remove last', 'cleared')),
             cfg('list_n6', 'lists.cpp', '-DCFG_N=6 -DCFG_STEPS=9', (), tier='thorough')])
PASS = ('reference', 'pointer', 'rvalue', 'virtual_ptr', 'shared', 'unique', 'next', 'macro', 'three', 'intrusive', 'const')
PROPERTIES['C16'] = dict(
    bounds='eleven methods covering references, pointers, rvalue references, shared, unique and intrusive pointers, pointers to const, virtual_ptrs (plain and smart, by value and by reference), one to three virtual parameters at any position, non-virtual values, references, rvalue references and move-only types with any 64-bit values; all the tuples of 4 dynamic classes (single, multiple and virtual inheritance); C++17 and C++20',
    outside='other parameter lists',
    configs=[cfg(n, 'passing.cpp', ['-DHIER_POLICIES=' + p] + f, PASS) for n, p, f in (
        ('map', 'pol::vptr_map<>', []), ('hash_rc', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', []), ('indirect', 'pol::vptr_map<>,pol::indirect_vptr', []), ('cxx20', 'pol::vptr_map<>', ['-std=c++20']))])
PROPERTIES['C17'] = dict(
    bounds='all acyclic graphs of 3 classes, 3 overriders of two parameters without class return types; of one parameter with return types; classes deriving from one class, 3 overriders of two parameters, with return types; a join of three classes, 3 overriders of one parameter, with return types; larger programs (chains, stars, trees, chains of diamonds, grids, layers and fans, in three orders of registration) of 9 classes with 9 and 70 overriders, of 5 classes with any additional edge; thorough: 4 classes, 6 classes with any additional edge',
    outside='more classes or overriders',
    configs=[
        cfg('bi_k3', 'n2216.cpp', '-DCFG_N=3 -DCFG_K=3 -DCFG_SHAPE=Bi -DCFG_RETS=0', ('two', 'three', 'next')),
        cfg('uni_rets', 'n2216.cpp', '-DCFG_N=4 -DCFG_K=2 -DCFG_SHAPE=Uni -DCFG_RETS=2', ('two', 'next', 'covariant')),
        cfg('bi_rets', 'n2216.cpp', '-DCFG_N=3 -DCFG_EDGES=0 -DCFG_ROOT=0 -DCFG_K=3 -DCFG_SHAPE=Bi -DCFG_RETS=2', ('two', 'three', 'next', 'covariant')),
        cfg('uni_join_k3', 'n2216.cpp', '-DCFG_N=5 -DCFG_EDGES=0x380 -DCFG_ROOT=0 -DCFG_K=3 -DCFG_SHAPE=Uni -DCFG_RETS=2', ('two', 'three', 'next', 'covariant')),
        large('uni9', 7, 9, 'Uni', ('two', 'three', 'next', 'covariant')),
        large('bi9', 7, 9, 'Bi', ('two', 'three', 'next', 'covariant')),
        large('bi_k70', 7, 9, 'Bi', ('two', 'three', 'next', 'covariant'), '-DCFG_K=70'),
        large('bi5_edge', 7, 5, 'Bi', ('two', 'three', 'next', 'covariant'), '-DCFG_EXTRA=1'),
        large('bi6_edge', 7, 6, 'Bi', ('two', 'three', 'next', 'covariant'), '-DCFG_EXTRA=1', tier='thorough'),
        cfg('uni_join_k4', 'n2216.cpp', '-DCFG_N=5 -DCFG_EDGES=0x390 -DCFG_ROOT=0 -DCFG_K=4 -DCFG_SHAPE=Uni -DCFG_RETS=2', ('two', 'three', 'next', 'covariant'), tier='thorough'),
        cfg('uni_rets_n4', 'n2216.cpp', '-DCFG_N=4 -DCFG_K=3 -DCFG_SHAPE=Uni -DCFG_RETS=2', ('two', 'three', 'next', 'covariant'), tier='thorough'),
    ])
PROPERTIES['C18'] = dict(
    bounds='two registries over the same classes and type ids, all graphs of 3 classes, 2 overriders of one parameter or one of two in each, all sequences of 3 operations (initialize, finalize, add or remove an overrider or a class, in either); through the public interface: all sequences of 5 operations on registries that share classes, method names, signatures and overriders',
    outside='longer sequences, three registries',
    configs=[cfg(n, 'isolate.cpp', '-DCFG_N=3 -DCFG_K=%d -DCFG_STEPS=%d -DCFG_SHAPE=%s -DCFG_RA=%s -DCFG_RB=%s %s' % (1 + (s == 'Uni'), st, s, a, b, f), ('init_a', 'init_b', 'fini_a', 'fini_b', 'drop_a', 'drop_b', 'ran', 'no_overrider', 'uninitialized'), **k) for n, s, st, a, b, f, k in (
        ('vec', 'Uni', 3, 'reg_vec_rc', 'reg_vec', '', {}), ('map', 'Uni', 3, 'reg_map_rc', 'reg_map', '', {}), ('hash', 'Uni', 3, 'reg_hash_rc', 'reg_hash', '-DCFG_EDGES=0', {}),
        ('ihash', 'Bi', 3, 'reg_ihash_rc', 'reg_hash_rc', '-DCFG_EDGES=0', {}), ('ivec', 'Uni', 3, 'reg_ivec_rc', 'reg_vec_rc', '', {}), ('vec_map', 'Bi', 2, 'reg_vec_rc', 'reg_map_rc', '', {}),
        ('vec4', 'Uni', 4, 'reg_vec_rc', 'reg_vec', '', dict(tier='thorough')), ('hash4', 'Uni', 4, 'reg_hash_rc', 'reg_hash', '-DCFG_EDGES=4', dict(tier='thorough')))] +
        [cfg('real_' + n, 'isolate_real.cpp', ['-DCFG_STEPS=5', '-DCFG_PA=' + a, '-DCFG_PB=' + b], ('initialized', 'uninitialized')) for n, a, b in (
        ('map', 'pol::vptr_map<>,pol::runtime_checks', 'pol::vptr_map<>,pol::indirect_vptr,pol::runtime_checks'),
        ('hash_map', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', 'pol::vptr_map<>,pol::runtime_checks'),
        ('hash', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks,pol::indirect_vptr'))])
PROPERTIES['C19'] = dict(
    bounds='all sequences of 6 operations (initialize, three ways for it to fail, finalize), followed each time by 27 calls and constructions that need an initialized registry; handlers that throw and that return',
    outside='longer sequences',
    configs=[cfg(n, 'lifecycle.cpp', ['-DCFG_STEPS=%d' % s, '-DCFG_VPTR=' + v, '-DCFG_MORE=' + m], ('not_initialized', 'initialized', 'finalized', 'failed', 'failed again', 'abort'), heap=True, **k) for n, s, v, m, k in (
        ('map', 6, 'vptr_map<>', '', {}), ('hash', 6, 'vptr_vector', ',pol::fast_perfect_hash', {}), ('indirect_hash', 6, 'vptr_vector', ',pol::fast_perfect_hash,pol::indirect_vptr', {}), ('indirect_map', 6, 'vptr_map<>', ',pol::indirect_vptr', {}),
        ('hash7', 7, 'vptr_vector', ',pol::fast_perfect_hash', dict(tier='thorough')))])
FM = ('match', 'mismatch', 'plain', 'abort')
PROPERTIES['C20'] = dict(
    bounds='ten final constructs on four polymorphic classes (single, multiple, virtual inheritance), any compatible static and dynamic classes; three classes that are not polymorphic; any 64-bit static and dynamic type ids under a custom rtti, with and without several ids for a class',
    outside='final constructs of a class that is not registered (a precondition)',
    configs=[cfg(n, 'final.cpp', ['-DHIER_POLICIES=' + p], r) for n, p, r in (('unchecked', 'pol::vptr_map<>', ('match', 'trusted', 'plain')), ('map', 'pol::vptr_map<>,pol::runtime_checks', FM), ('hash', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', FM), ('indirect', 'pol::vptr_map<>,pol::runtime_checks,pol::indirect_vptr', FM))] +
        [cfg('any_' + n, 'final_any.cpp', f, ('accepted', 'mismatch') if 'checks' in f else ('accepted',)) for n, f in (('unchecked', '-DCFG_MORE='), ('checked', '-DCFG_MORE=,pol::runtime_checks'), ('aliases', '-DCFG_MORE=,pol::runtime_checks -DCFG_ALIASES'))])

V3 = ('ran', 'no_overrider', 'ambiguous')
PROPERTIES['C21'] = dict(
    bounds='virtual_ptrs obtained at any time in all sequences of 3 operations (initialize, add or remove an overrider or a class) over all graphs of 3 classes, 2 overriders of one or two parameters; with real classes, plain and smart virtual_ptrs and embedded v-table pointers, 3 re-initializations',
    outside='longer histories; dynamic libraries (registrations are added and removed through the same objects)',
    configs=[cfg(n, 'indirect.cpp', '-DCFG_N=3 -DCFG_K=2 -DCFG_STEPS=%d -DCFG_REG=%s -DCFG_SHAPE=%s' % (s, r, sh), V3 if sh == 'VBi' else V3[:2], **k) for n, s, r, sh, k in (
        ('vec', 3, 'reg_ivec', 'VUni', {}), ('map', 3, 'reg_imap_rc', 'VRef', {}), ('vec_bi', 2, 'reg_ivec_rc', 'VBi', {}), ('hash', 2, 'reg_ihash_rc', 'VUni', {}), ('vec4', 4, 'reg_ivec', 'VUni', dict(tier='thorough')))] +
        [cfg('real_' + n, 'indirect_real.cpp', ['-DCFG_STEPS=3', '-DHIER_POLICIES=' + p], ('survived', 'finalized')) for n, p in (('map', 'pol::vptr_map<>,pol::indirect_vptr'), ('hash', 'pol::fast_perfect_hash,pol::vptr_vector,pol::indirect_vptr,pol::runtime_checks'))])
PROPERTIES['C22'] = dict(
    bounds='all 64-bit numbers and pointers; strings and values of the environment variable of up to 20 characters; initialize with and without tracing, options in any order, named or temporary, for all graphs of 3 classes and 2 overriders of one or two parameters, all classes registered or one missing',
    outside='the content of the trace; longer strings; more classes',
    configs=[cfg('output', 'output.cpp', '-DCFG_LEN=20', ('decimal', 'hexadecimal', 'off', 'environment'))] +
        [cfg(n, 'trace.cpp', ['-DCFG_N=3', '-DCFG_K=2', '-DCFG_SHAPE=' + s, '-DCFG_POL=' + p] + f, ('off', 'on', 'error')) for n, s, p, f in (
        ('trace_bi', 'Bi', 'pol::vptr_map<>', []), ('trace_vec', 'Uni', 'pol::vptr_vector', []), ('trace_hash', 'Uni', 'pol::fast_perfect_hash,pol::vptr_vector', ['-DCFG_EDGES=0']), ('trace_hash_rc', 'Uni', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks', ['-DCFG_EDGES=4']))])
PROPERTIES['C23'] = dict(
    bounds='four classes with virtual bases, one (free ids) or all of them with two type ids, any of which each registration may use; any pairwise distinct 64-bit ids (ordered map), four schemes of ids including zero and the extremes (map, perfect hash), any small distinct ids (vector); any identities; three methods of one and two parameters, one with class return types; immediate and deferred collection, initialize once or twice, with deferred ids that do or do not change in between',
    outside='more classes or ids per class',
    configs=[cfg(n, 'customrtti.cpp', ['-DCFG_IDS=%d' % i, '-DCFG_RTTI=' + r, '-DCFG_POL=' + p], ('ran', 'alias', 'ambiguous', 'covariant') + (('moved',) if r != 'rtti' else ())) for n, i, r, p in (
        ('free', 0, 'rtti', 'pol::vptr_map<boost::mp11::mp_quote<ord_map>>'), ('map', 1, 'rtti', 'pol::vptr_map<>'), ('deferred_map', 1, 'deferred_static_rtti', 'pol::vptr_map<>,pol::runtime_checks'), ('vec', 2, 'deferred_static_rtti', 'pol::vptr_vector'),
        ('hash', 1, 'rtti', 'pol::fast_perfect_hash,pol::vptr_vector,pol::runtime_checks'), ('deferred_hash', 1, 'deferred_static_rtti', 'pol::fast_perfect_hash,pol::vptr_vector'), ('deferred_indirect', 1, 'deferred_static_rtti', 'pol::fast_perfect_hash,pol::vptr_vector,pol::indirect_vptr,pol::runtime_checks'))])
KINDS = ('not_initialized', 'no_overrider', 'ambiguous', 'missing_class', 'missing_base', 'final', 'default', 'installed', 'abort', 'thrown')
PROPERTIES['C24'] = dict(
    bounds='three registries; all sequences of 2 operations (install one of three handlers, an error of any kind with any 64-bit payload, output on or off) followed by an error raised in the library, of each kind, with a handler that throws or returns; registries without an error handler and with throw_error_handler: each kind of error; a real failure to find a hash, with a handler that throws or returns, and without one',
    outside='longer sequences; a handler that replaces itself while it runs; std::ostringstream and std::runtime_error are modelled',
    configs=[cfg(n, 'errors.cpp', ['-DCFG_STEPS=2', '-DCFG_POL=' + p] + f, KINDS) for n, p, f in (
        ('map', 'pol::vptr_map<>', ['-DCFG_HASH_KIND=7']), ('hash', 'pol::vptr_vector,pol::fast_perfect_hash', ['-DCFG_HASH_KIND=8', '-DCFG_HASH']))] +
        [cfg(n, 'stop.cpp', ['-DCFG_POL=' + p] + f, r) for n, p, f, r in (
        ('none_map', 'pol::vptr_map<>', [], ('abort',)), ('none_hash', 'pol::vptr_vector,pol::fast_perfect_hash', [], ('abort',)),
        ('throw_map', 'pol::vptr_map<>', ['-DCFG_THROW', '-I/verif/rt/shim'], ('thrown', 'runtime_error')), ('throw_hash', 'pol::vptr_vector,pol::fast_perfect_hash', ['-DCFG_THROW', '-I/verif/rt/shim'], ('thrown', 'runtime_error')))] +
        [cfg(n, 'hashfail.cpp', '-DCFG_ALIASES=18 -DCFG_STRIDES=2 -DCFG_REG=reg_' + r, ('reported',), engine=['--steps', '3000000000']) for n, r in (('search', 'hash'), ('search_rc', 'hash_rc'), ('search_none', 'hash_none'))] +
        [cfg('map3', 'errors.cpp', ['-DCFG_STEPS=3', '-DCFG_POL=pol::vptr_map<>', '-DCFG_HASH_KIND=7'], KINDS, tier='thorough')])
PROPERTIES['C25'] = dict(
    bounds='programs of one to four translation units, with and without BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS, linked in several orders; all sequences of 3 operations (initialize, finalize) by any of them; handlers that throw and that return; calls in all of them',
    outside='dynamic libraries; registries other than the default one',
    configs=[cfg('units_' + u, 'odr.cpp', ['odr_%s.cpp' % c for c in u] + ['-DCFG_UNITS=%d' % len(u), '-DCFG_CONSISTENT=%d' % k], ('consistent',) if k else ('inconsistent', 'abort'))
        for u in ('a', 'c', 'ab', 'cd', 'ac', 'ca', 'abc', 'cda', 'acbd') for k in [int(set(u) <= set('ab') or set(u) <= set('cd'))]])

PROPERTIES['C27'] = dict(
    bounds='thirteen registries derived from one another by up to three chained uses of with and without (adding, replacing, removing and removing again seven policies of six categories, one of them user-defined, and policies that are there already), their policy lists, and in each the calls, errors, runtime checks, v-table lookups and indirect pointers that the resulting policies imply, with all arguments; the registries derived from the default one',
    outside='other lists of policies',
    configs=[cfg('derive', 'derive.cpp', '', ('calls', 'errors', 'checked', 'indirect'))])

PROPERTIES['C28'] = dict(
    bounds='a program of three translation units, linked in three orders: five classes with virtual bases registered piecewise in all of the units, four methods (overloads, the same name in two namespaces), sixteen overriders (inline in the header, declared in the header and defined in a unit, in other namespaces, through the core interface); all subsets of the overriders of each method, all arguments, calls made in two units; the default registry with and without runtime checks, and another one',
    outside='other programs; dynamic libraries',
    configs=[cfg(n, 'macros.cpp', f, ('ran', 'no_overrider', 'ambiguous', 'fn', 'overrider', 'overload')) for n, f in (
        ('default', ['macros_a.cpp', 'macros_b.cpp']), ('checked', ['macros_b.cpp', 'macros_a.cpp', '-DBOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS']),
        ('indirect', ['macros_a.cpp', 'macros_b.cpp', '-DBOOST_OPENMETHOD_DEFAULT_REGISTRY=::boost::openmethod::indirect_registry']))])
for _c, _r in (('C05', ('ran', 'ambiguous')), ('C06', ('ran', 'ambiguous', 'added', 'removed'))):
    PROPERTIES[_c]['configs'] += [cfg(n, 'real.cpp', ['-DCFG_LEN=%d' % l, '-DCFG_STEPS=%d' % s, '-DCFG_POL=' + p], _r, **k) for c, n, l, s, p, k in (
        ('C05', 'real_map', 5, 0, 'pol::vptr_map<>', {}), ('C05', 'real_hash', 3, 0, 'pol::vptr_vector,pol::fast_perfect_hash,pol::runtime_checks', {}),
        ('C06', 'real_map', 3, 1, 'pol::vptr_map<>', {}), ('C06', 'real_hash', 2, 2, 'pol::vptr_vector,pol::fast_perfect_hash,pol::runtime_checks', {}), ('C06', 'real_indirect', 4, 1, 'pol::vptr_map<>,pol::indirect_vptr', dict(tier='thorough')), ('C05', 'real_map6', 6, 0, 'pol::vptr_map<>', dict(tier='thorough'))) if c == _c]
PROPERTIES['C06']['configs'] += [cfg('unload_' + n, 'unload.cpp', ['-DCFG_STEPS=%d' % s, '-DCFG_RTTI=' + r, '-DCFG_POL=' + p + ',pol::runtime_checks'], ('ran', 'no_overrider', 'ambiguous', 'missing_class', 'next', 'changed'), **k) for n, s, r, p, k in (
    ('map', 4, 'pol::std_rtti', 'pol::vptr_map<>', {}), ('imap', 3, 'deferred_std_rtti', 'pol::vptr_map<>,pol::indirect_vptr', {}), ('hash', 3, 'deferred_std_rtti', 'pol::vptr_vector,pol::fast_perfect_hash', {}), ('ihash', 3, 'pol::std_rtti', 'pol::vptr_vector,pol::fast_perfect_hash,pol::indirect_vptr', {}),
    ('map5', 5, 'pol::std_rtti', 'pol::vptr_map<>', dict(tier='thorough')), ('ihash4', 4, 'deferred_std_rtti', 'pol::vptr_vector,pol::fast_perfect_hash,pol::indirect_vptr', dict(tier='thorough')))]
PROPERTIES['C05']['bounds'] += '; seven real classes with virtual, multiple and abstract bases, registered by all sequences of up to 5 of 10 use_classes objects that list them together, piecewise, backwards or with bases left out'
PROPERTIES['C06']['bounds'] += '; seven real classes registered by all sequences of up to 3 of 10 use_classes objects, of which up to two come or go between initializations; seven libraries of the registration objects of five classes, thirteen overriders and a method, loaded and unloaded in any order over up to four initializations'

PROPERTIES['C29'] = dict(
    bounds='user-written vptr policies (with and without finalize) and a user-written type hash behind vptr_vector, with and without runtime checks and indirect pointers; all acyclic graphs of 2 classes with up to 2 overriders and of 3 classes, up to 3 type ids per class, two initializations with a registration in between, eight lists of options (user-defined, trace, n2216; lvalues, constants and temporaries; all values), three ways to finalize, all arguments; three numberings by the hash',
    outside='more classes; policies of other kinds (rtti: C23; error handlers: C24; outputs: C22)',
    configs=[cfg('%s%s_n%d' % (kn, mn, n), 'policy.cpp', '-DCFG_KIND=%d -DCFG_MORE=%s -DCFG_N=%d -DCFG_K=2 -DCFG_ROUNDS=%d' % (k, m, n, r), ('ran', 'failed', 'options', 'traced') + (('twice', 'finalized') if r == 2 else ('n2216',)), **({'tier': 'thorough'} if t else {}))
        for k, kn in ((0, 'vptr'), (1, 'bare'), (2, 'hash')) for m, mn in (('', ''), (',pol::runtime_checks', '_rc'), (',pol::indirect_vptr', '_indirect'), (',pol::runtime_checks,pol::indirect_vptr', '_both'))
        for n, r in ((2, 2), (3, 1), (3, 2)) for t in [r * n == 6 or (k, mn, n) not in ((0, '', 2), (0, '_both', 3), (1, '_indirect', 2), (2, '', 2), (2, '_both', 3), (2, '_indirect', 2), (2, '_rc', 2))]])
RCALLS = ('ran', 'error', 'next', 'virtual_ptr')
PROPERTIES['C30'] = dict(
    bounds='methods with 1 to 3 virtual parameters and up to 2 overriders (3 in some), on all acyclic graphs of 2 and 3 classes, in ten registries (vectors, hash tables and both maps, with and without runtime checks and indirect pointers); all arguments of a call, of next, and of a call through a virtual_ptr; in the first call and in a later one; and, on a real hierarchy, arguments of every kind, shared and unique virtual_ptrs, casts, final and make_*_virtual, all pairs of classes. Every instruction of the calls is executed with the memory that exists before them frozen, but for thread-local variables, atomic operations and the initialization of local statics',
    outside='what the operating system and the C++ runtime do; initialize and finalize themselves, which may not run along with calls; user-written policies and overriders',
    configs=[cfg('%s_%s%s' % (sh.lower(), r[4:], '_warm' if w else ''), 'concurrent.cpp', '-fthreadsafe-statics -DCFG_N=%d -DCFG_K=%d -DCFG_SHAPE=%s -DCFG_REG=%s%s' % (n, k, sh, r, ' -DCFG_WARM' if w else ''),
             RCALLS + (('stranger',) if sh == 'Uni' and r.endswith('_rc') else ()), **({'tier': 'thorough'} if t else {}))
        for sh, n, k in (('Uni', 3, 2), ('Bi', 2, 2), ('TriMid', 2, 1)) for r in ('reg_vec', 'reg_vec_rc', 'reg_map', 'reg_map_rc', 'reg_omap_rc', 'reg_hash', 'reg_hash_rc', 'reg_ivec_rc', 'reg_imap_rc', 'reg_ihash_rc')
        for w in (0, 1) for t in [(sh, w) not in (('Uni', 0), ('Bi', 1))]]
        + [cfg('bi_n3_k3_%s' % r[4:], 'concurrent.cpp', '-fthreadsafe-statics -DCFG_N=3 -DCFG_K=2 -DCFG_SHAPE=Bi -DCFG_REG=%s' % r, RCALLS, tier='thorough') for r in ('reg_hash_rc', 'reg_ivec_rc')]
        + [cfg('real%s' % n, 'concurrent_real.cpp', ['-fthreadsafe-statics', '-DHIER_POLICIES=' + p], ('ran', 'error')) for n, p in
            (('', 'pol::vptr_map<>'), ('_hash_rc', 'pol::vptr_vector,pol::fast_perfect_hash,pol::runtime_checks'), ('_hash', 'pol::vptr_vector,pol::fast_perfect_hash'), ('_indirect_rc', 'pol::vptr_map<>,pol::indirect_vptr,pol::runtime_checks'))])
