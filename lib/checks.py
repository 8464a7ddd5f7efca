"""What each property's check runs.  Cases, oracles and type lists live in harness/."""
import os, sys
import cfgdiff, illtyped, progs, threads, typelists
from vlib import HARN, INC, CONFIGS, CheckError, Violation, known_findings, run, base_env, read

CORE = ['core_backup', 'core_blank', 'core_mixed', 'core_objfb', 'core_wrap', 'core_mo', 'core_align', 'core_one', 'core_ntma', 'core_tiny', 'core_swap']

def J(cfg, tus, cases, **k):
    return dict(cfg=cfg, tus=list(tus), cases=cases, **k)

def core(ctx):
    r = typelists.rng(ctx, int(ctx.prop[1:]))
    gen = lambda n, cfg, cases, t, hi=6: [(cfg, typelists.gen_core(r, 1, hi), cases, t) for _ in range(n)]
    if ctx.quick:
        ctx.plan([J('g17', CORE, 2000000, time=40), J('san', CORE, 100000, time=40), J('g11m', CORE, 600000, time=30)])
        typelists.search(ctx, gen(5, 'g17', 300000, 10) + gen(2, 'san', 20000, 10))
    else:
        big = CORE + ['core_over']
        ctx.plan([J('g17', big, 20000000, time=300), J('san', big, 1500000, time=300), J('g11m', CORE, 5000000, time=150),
                  J('gsan', CORE, 800000, time=200), J('c20', CORE, 5000000, time=150), J('san11', CORE, 800000, time=200), J('gm32', CORE, 5000000, time=150)])
        typelists.search(ctx, gen(24, 'g17', 1500000, 40, 10) + gen(12, 'san', 200000, 40) + gen(8, 'g11m', 1500000, 40) + gen(8, 'c20', 1500000, 40))

VISIT = ['visit_a', 'visit_b', 'visit_c', 'visit_d', 'visit_e']
MVISIT = ['mvisit_bin', 'mvisit_bin2', 'mvisit_bin3', 'mvisit_ter', 'mvisit_ter2', 'mvisit_nary', 'mvisit_lam']
GETX = ['getx_a', 'getx_b', 'getx_c', 'getx_d']
POLY = ['poly', 'poly_b']

def family(tus, q, t, fast_q='g17', fast_t=('g11m', 'c23', 'gsan', 'lim3'), qt=40, more=()):
    """quick: sanitised clang and plain gcc; thorough: several more builds."""
    def f(ctx):
        tu = list(tus)
        if ctx.quick:
            ctx.plan([J(fast_q, tu, 3 * q[0], time=qt), J('san', tu, 3 * q[1], time=qt)] + [J(c, tu, q[0], time=qt) for c in more])
        else:
            ctx.plan([J(fast_q, tu, t[0], time=300), J('san', tu, t[1], time=300)] + [J(c, tu, t[1] if 'san' in c else t[0] // 2, time=200) for c in fast_t])
    return f

TREE = ['tree_a', 'tree_b']
CMP, HASH, STREAM = ['cmp_a', 'cmp_b', 'cmp_c'], ['hashx_a', 'hashx_b', 'hashx_c'], ['stream_a', 'stream_b']

def c13(ctx):
    family(['vconv'], (600000, 60000), (10000000, 1000000))(ctx)
    progs.c13_programs(ctx)

ALIAS_INPUTS = ['copy-int-child', 'copy-string-child', 'copy-throwing-child', 'move-int-child', 'move-string-child', 'move-subtree-child']

def c23(ctx):
    tus = CORE + ['alias', 'alias2', 'wrapper']
    if ctx.quick:
        ctx.plan([J('g17', tus, 1500000, time=40), J('san', tus, 100000, time=40)])
    else:
        ctx.plan([J('g17', tus, 15000000, time=300), J('san', tus, 1500000, time=300), J('g11m', tus, 5000000, time=150), J('gsan', tus, 800000, time=200), J('c20', tus, 5000000, time=150)])
    # variant-typed parts of the variant itself: fixed inputs, some of them recorded findings
    known, cfg = known_findings(), 'san'
    cxx, flags = CONFIGS[cfg]
    exe = ctx.tmp + '/alias_known'
    cmd = [cxx] + flags.split() + ['-w', '-I' + INC, HARN + '/alias_known.cpp', '-o', exe]
    rc, out = run(cmd, env=base_env())
    if rc:
        ctx.compile_violation('harness alias_known', cxx, flags, cmd, out)
    for i in ALIAS_INPUTS:
        rc, out = run([exe, i], timeout=60, env=base_env())
        if rc == 0:
            continue
        if ('C23', i) in known:
            ctx.known.append('%s: %s' % (i, known[('C23', i)]))
            continue
        p = ctx.replay_path('alias')
        with open(p, 'w') as f:
            f.write('kind: command\nproperty: C23\ncommand: %s && %s %s\nmessage: assigning a variant-typed part of the variant itself\n\n%s' % (' '.join(cmd), exe, i, out[:8000]))
        raise Violation('assigning a variant-typed part of the variant itself (%s) fails: %s' % (i, out[:200].replace('\n', ' ')), p)
    ctx.add(len(ALIAS_INPUTS), 0, [], what='variant-typed parts of the variant itself')

def c19(ctx):
    progs.c19_programs(ctx)
    core(ctx)

RULE_CORE = ('A case is a byte string decoded into a history of up to 50 operations (construct, copy, move, assign, convert, swap, mutate, '
             'destroy, container round trips) on four variant slots (in minimally aligned or larger memory) of one of some 20 fixed or (seed-dependent) generated type lists, with failures injected at the k-th throwing point; '
             'after every step all slots are compared with a tagged-union model. ')
LVL = 'exploration'
CHECKS = {
    'C01': dict(level=LVL, run=core, rule=RULE_CORE + 'Non-trivial: a cross-type change happened (history cases) or an operation failed (fault cases).'),
    'C02': dict(level=LVL, run=core, rule=RULE_CORE + 'Non-trivial: a cross-type change happened.'),
    'C03': dict(level='fault_enumeration', run=core, rule=RULE_CORE + 'The enum cases re-run a generated history once per throwing point of its last operation. Non-trivial: an operation failed.'),
    'C04': dict(level=LVL, run=core, rule=RULE_CORE + 'Every constructor, destructor and heap block is accounted. Non-trivial: a cross-type change or a failed operation.'),
    'C15': dict(level=LVL, run=core, rule=RULE_CORE + 'Swap-heavy. Non-trivial: a cross-type change happened or an operation failed.'),
    'C16': dict(level=LVL, run=core, rule=RULE_CORE + 'Move-heavy, counting copies and moves. Non-trivial: a cross-type change happened.'),
    'C19': dict(level=LVL, run=c19, rule=RULE_CORE + 'Content addresses and allocations are checked. In addition generated programs over lists of types of random size (1 to 255) and alignment (1 to 128) check static layout, addresses, neighbouring bytes and heap use over random histories of three adjacent variants. Non-trivial: a cross-type change or a failed operation.'),
    'C05': dict(level=LVL, run=family(VISIT, (400000, 20000), (8000000, 400000), more=('c11',)), rule='A case builds variants through random histories (failed assignments included) and visits them with a generated visitor form: static_visitor, lambda, generic lambda, const / non-const / rvalue, void / value / reference result, immediate or delayed, returning or throwing. The call log (count, address, constness, value category, result) is the oracle. Non-trivial: the held alternative is not the first one or the variant carries a history.',
                technique='property-based testing of visitation against a call-log oracle'),
    'C06': dict(level=LVL, run=family(MVISIT, (400000, 20000), (8000000, 400000), more=('c11',)), rule='A case builds 2 to 6 variants of different type lists, chooses constness and value category per operand and a visitor form, and compares the logged call (count, order, addresses, categories, result, exception) with the operands. Non-trivial: operands hold different alternatives or the visitor throws.',
                technique='property-based testing of multi-visitation against a call-log oracle'),
    'C07': dict(level=LVL, run=family(GETX, (400000, 8000), (8000000, 300000), fast_t=('g11m', 'c23', 'gsan', 'relax')), rule='A case builds a variant through a random history and issues every form of get, strict_get and relaxed_get for random bounded and foreign types. Oracle: the alternative and address the variant was built with. Non-trivial: the held alternative is not the first one.',
                technique='property-based testing of get against the constructed content'),
    'C08': dict(level=LVL, run=family(POLY, (400000, 10000), (8000000, 300000)), rule='A case builds a variant over a class hierarchy (single, multiple, virtual inheritance, wrapped alternatives, tracked classes after failed assignments) and issues every polymorphic_get form for random classes. Oracle: the implicit derived-to-base conversion of the held object. Non-trivial: the held alternative is not the first one.',
                technique='property-based testing of polymorphic_get against derived-to-base conversion'),
    'C14': dict(level=LVL, run=family(TREE, (150000, 8000), (3000000, 150000), fast_t=('g11m', 'c20', 'gsan', 'lim3')), rule='A case builds random trees (up to 150 levels) in one of four recursive variants and applies up to 30 operations: copy, move, assign, swap, graft a copied, moved or swapped tree or content into a random node, extract a subtree, change a leaf, compare, hash, print, fold by unary and binary visitation, store in containers, with failures injected at the k-th throwing point. After every step all trees are compared with a plain tree model. Non-trivial: a tree of at least 4 nodes and more than 2 operations.',
                technique='stateful model-based testing of recursive variants against a plain tree model, with fault injection'),
    'C17': dict(level=LVL, run=family(['refs'], (300000, 20000), (10000000, 800000), fast_t=('g11m', 'c20', 'gsan', 'lim3')), rule='A case is a history of up to 40 steps over five variants with reference and value alternatives and a pool of tracked referents: construct, copy, move-construct, write through the variant, write the referent, compare, hash, print, visit, convert to variants of values, of narrower references and of base references, store in containers, destroy. Oracle: alias model (alternative, referent) and counters of every operation on the referents. Non-trivial: at least one reference was copied from another variant.',
                technique='stateful model-based testing against an alias model'),
    'C23': dict(level=LVL, run=c23, rule=RULE_CORE + 'Self-heavy, plus histories that assign to a variant (constant or rvalue) its content, a member, element, character buffer or tree part of its content, with failures injected. Non-trivial: a cross-type change (core) or at least one aliased assignment.',
                technique='stateful model-based testing of self and aliased assignment under sanitizers'),
    'C24': dict(level=LVL, run=family(['wrapper'], (800000, 80000), (20000000, 2000000), fast_t=('g11m', 'c20', 'gsan', 'lim3')), rule='A case is a history of up to 40 steps over four recursive_wrapper objects of one of five tracked types: construct, copy, move, assign from T and from wrappers, swap, self operations, write, with failures at the k-th throwing point. Oracle: value model, address stability, live-object registry. Non-trivial: a move, swap or failed operation happened.',
                technique='stateful model-based testing with fault injection'),
    'C18': dict(level=LVL, run=typelists.c18, rule='A case is a generated list of bounded types (1 to 136, tracked flavours, plain types, wrappers; written directly or formed by list, vector, joint_view, transform_view) compiled into a harness, and a generated byte string decoded into a history over it; unrolling limits 2, 3 and 20, normal and minimised discriminators. Oracle: (position, value) model. Non-trivial: a position of at least 2 (short lists) or above 20 (long lists) was reached.',
                technique='stateful model-based testing over generated type lists'),
    'C25': dict(level=LVL, run=progs.c25, rule='A case is a generated make_recursive_variant or make_recursive_variant_over instantiation over random type expressions (nested templates of 1 to 7 arguments, pointers, references, cv-qualifiers, function pointers, containers, embedded and self-contained recursive variants) compiled into a program. Oracle: the bounded types written out with the placeholder replaced by the variant, compared with V::types; values of each are then constructed, assigned, copied, moved, swapped, got and visited. Non-trivial (distinct_nontrivial): every generated case.',
                technique='generated-program property testing against independently substituted types'),
    'C20': dict(level=LVL, run=cfgdiff.c20, rule='A case is a generated byte string decoded into a history (construct, assign, copy, move, swap, mutate, containers, failures) over lists of 3 to 258 bounded types, recursive variants and variant conversions, executed in up to 21 builds (two compilers, C++11 to C++23, optimisation levels, minimised discriminators, unrolling limits, relaxed get, no streams, no RTTI, no exceptions, sanitizers). Oracle: digests of everything observed (which, type, get, visitation categories, comparison, hash, text, live objects, exceptions) agree between builds. evaluations: digest comparisons; distinct_nontrivial: different histories by digest.',
                technique='differential property testing of generated histories between builds'),
    'C21': dict(level=LVL, run=threads.c21, rule='A case is a byte string decoded into four shared variants in generated states (histories with failures; heap-held contents) and, for 2 to 4 threads, a sequence of up to 20 operations repeated up to 6 times: 15 kinds of const operation on the shared variants and 6 kinds of change to a variant of its own. It is run sequentially (the bytes of every shared variant are compared after each operation), then concurrently; builds with two ThreadSanitizers, AddressSanitizer and without. Oracle: no data race, results of the sequential run, unchanged bytes, addresses and values. Non-trivial (distinct_nontrivial): at least one shared variant holds its content on the heap after a failure.',
                technique='randomised concurrent property testing under a race detector, differential against sequential execution'),
    'C26': dict(level=LVL, run=illtyped.c26, rule='A case is a generated use of a variant over a random list of bounded types, in a well-typed and an ill-typed member of a pair that differ in one type, category or overload (get and polymorphic_get of types that are not bounded, conversion from foreign, explicit-only, ambiguous and wider operands, foreign comparison, writing through const, incomplete or mis-qualified visitors, wrong results, copies of move-only contents, operations a bounded type lacks, swap of different variants, default construction, reference binding; type traits). Oracle: construction of the pair; the compiler has to accept the one and reject the other. Non-trivial (distinct_nontrivial): the ill-typed members.',
                technique='generated-program property testing of compile-time acceptance and rejection'),
    'C22': dict(level=LVL, run=family(['vptr'], (400000, 10000), (8000000, 300000)), rule='A case builds a variant through a random history and applies a visitor_ptr made from a function taking each bounded type by value, reference or const reference. Oracle: call log and bad_visit. Non-trivial: the held alternative is not the first one.',
                technique='property-based testing of visitor_ptr against a call-log oracle'),
    'C09': dict(level=LVL, run=family(CMP, (300000, 40000), (5000000, 600000)), rule='A case builds pairs of variants through random histories and compares them with all six operators, or sorts and indexes a batch of variants. Contents log every call of == and <, make equality finer than order, include NaN-like values, and can throw. Oracle: (alternative, value) model and call log. Non-trivial: a pair holding the same alternative, or a batch of at least 3.',
                technique='property-based testing against a lexicographic (alternative, value) model'),
    'C10': dict(level=LVL, run=family(HASH, (300000, 30000), (5000000, 500000)), rule='A case hashes variants holding the same value built through two different histories, variants whose contents collide in their own hash, blocks of values per alternative (spread), or runs insert/erase/find on unordered containers against a set model. Non-trivial: at least one of two equal variants has a non-trivial history, every spread block, containers with more than two keys.',
                technique='property-based testing of hash/equality consistency, metamorphic over histories'),
    'C11': dict(level=LVL, run=family(STREAM, (300000, 40000), (5000000, 600000)), rule='A case prepares two identical narrow or wide streams (flags, width, precision, fill, locale, iword, exception mask, error state, a buffer that fails after n characters), writes the variant to one and the held object to the other, and compares characters, state and exceptions. Non-trivial: any non-default preparation.',
                technique='differential property testing: variant output against the content written directly'),
    'C12': dict(level=LVL, run=progs.c12, rule='A case is a generated (bounded type list, operand type, value category) triple compiled into a program; at run time it is constructed, copy-initialised, passed and assigned over every previously held alternative for random values. Oracle: real overload resolution over the bounded types, by value and by {const T&, T&&}, used only where both agree. Non-trivial (distinct_nontrivial): cases the oracle decides; evaluations counts verified operations.',
                technique='generated-program property testing against a compile-time overload-resolution oracle'),
    'C13': dict(level=LVL, run=c13, rule='Part 1: generated programs, a case is a pair of type lists (or an inner variant inside an outer one); every source alternative is converted by construction and assignment from const, non-const and rvalue sources over every previously held target alternative, and compared with the direct conversion of the content. Part 2: fault-injecting cases over tracked types, with sources and targets left by failed assignments. Non-trivial: programs the oracle decides; runtime cases with a failed conversion or a source with a history.',
                technique='generated-program property testing against the direct conversion of the content, and fault-injecting model testing'),
}

def replay(ctx, spec, path):
    t = read(path).decode('utf-8', 'replace')
    f = {}
    for l in t.splitlines():
        if ': ' in l:
            k, v = l.split(': ', 1)
            f.setdefault(k, v)
    if '\ngenerated source:\n' in t:
        return typelists.replay(ctx, path, t, f['config'])
    if f.get('kind') == 'bytes':
        case = f['case'].split('.')[0]
        tus = tu_of_case(case)
        cfg = f.get('config', 'san')
        b = ctx.build([(cfg, tus, '')])[0]
        rc, out = run([b, '--prop', ctx.prop, '--replay', path, '--tmp', ctx.tmp], env=base_env())
        print(out)
        return rc
    if f.get('kind') == 'config':
        return cfgdiff.replay(ctx, path, t, f)
    if f.get('kind') == 'threads':
        return threads.replay(ctx, path, t, f)
    if f.get('kind') == 'typing':
        return illtyped.replay(ctx, path, t, f)
    if f.get('kind') == 'program':
        return progs.replay_program(ctx, path, t)
    print(t)
    return 1

def tu_of_case(case):
    """The harness source that registers cases of this name."""
    import glob, re
    from vlib import HARN
    for p in sorted(glob.glob(HARN + '/*.cpp')):
        s = read(p).decode()
        if re.search(r'CASES\(%s\b' % re.escape(case), s) or ('"%s' % case) in s:
            return [os.path.basename(p)[:-4]]
    raise CheckError('no harness has case ' + case)
