# What each check is made of: harness sources, build variants, budgets, and the words for its evidence file.
WORLD = dict(flags=[], wrap_lapack=True, kind='asan')

def H(src, cfgs=(0, 1, 2, 3), **kw):
    d = dict(src=src, cfgs=list(cfgs), **WORLD)
    d.update(kw)
    return d

LIB = 'whole library (HIF, all pre-processing, factorization, Schur, dense solvers), system LAPACK'
STUB = 'allocator (ledger, garbage fill, failure), LAPACK entry points can be failed, message sinks, clock'
TRUST = ' Sampled, four scalar/index configurations; trusts g++/clang sanitizers and the harness oracle.'

SCHED = ' Real threads under a seeded baton scheduler with happens-before race detection over compiler-inserted access hooks; atomics sequentially consistent; GCC OpenMP runtime replaced.'
SSTUB = 'thread scheduler, OpenMP runtime (team sizes, regions, barriers, locks, loops), pthread mutexes and static-initialisation guards, allocator, clock'

CHECKS = {
    'C01': dict(
        note='Whole factorizations (one to two levels, with and without the threaded Schur complement) on 1-8 simulated threads compared with the serial factorization of the same input: sizes, statistics and applies, plus races.' + SCHED,
        harness=H('p_c01.cpp', kind='sched'), level='exploration', quick=45, thorough=900,
        rule='one run = one input factorized serially and then 1-3 times under drawn schedules, team sizes and caller nesting; non-trivial = at least one region ran with more than one thread; distinct = different hash of sizes, strategy and number of switches',
        real='whole library (HIF, all pre-processing, factorization, threaded Schur complement, dense solvers), system LAPACK (uninstrumented)', stub=SSTUB),
    'C02': dict(
        note='Products and refinement in teams of 1-8 simulated threads, nested and from several callers, against an independent product; races, missed or outside writes, changed inputs.' + SCHED,
        harness=H('p_c02.cpp', kind='sched'), level='exploration', quick=18, thorough=900,
        rule='one run = 1-3 products (six entry points) or 1-2 refinements under one schedule and team policy; non-trivial = at least one region ran with more than one thread; distinct = different hash of operations, strategy and number of switches',
        real='threaded and serial product kernels, iterative refinement, thread-count logic', stub=SSTUB),
    'C03': dict(
        note='2-4 simulated callers run drawn scripts over their own C++ and C objects (all four types) concurrently and then alone; statuses, messages, statistics and results must agree; races, allocation and LAPACK failures per caller.' + SCHED,
        harness=H('p_c03.cpp', cfgs=(0, 1), kind='sched', disk=True, localize='lhf*'), level='exploration', quick=30, thorough=900,
        rule='one run = one set of scripts executed concurrently under one schedule and then one by one; non-trivial = callers were switched and at least two steps succeeded; distinct = different hash of types, interfaces and number of switches',
        real='whole library and libhifir.cpp, system LAPACK (uninstrumented)', stub=SSTUB + ', LAPACK return codes, malloc of the handles'),
    'C04': dict(
        note='Each run executes one history 3-4 times under different heap and stack contents, clocks, verbosity and environment and compares every result bit for bit. One thread here; thread counts are varied in C01.' + TRUST,
        harness=H('p_c04.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one drawn history of 2-7 operations (factorize, clear, filters, applies, injected allocation and LAPACK failures), executed under a reference environment and 2-3 drawn ones; '
             'non-trivial = at least one apply succeeded; distinct = different hash of operations and resulting sizes',
        real=LIB, stub=STUB + ', getenv variables, stack contents'),
    'C05': dict(
        note='Each run compares every answer and query of one long-lived object with a fresh object given only the last factorization. Matrices up to order 60.' + TRUST,
        harness=H('p_c05.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of 2-10 operations (factorize, clear, apply, attach filters, failed calls) on one object drawn from the seed; '
             'non-trivial = at least two factorization attempts and at least one apply; distinct = different hash of operation kinds, options and resulting sizes',
        real=LIB, stub=STUB),
    'C06': dict(
        note='Each run enumerates failure points (allocation, LAPACK call, message, rejected input) of one factorization and checks emptiness and re-use against a fresh object. Up to 40 points per factorization.' + TRUST,
        harness=H('p_c06.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one factorization (with or without an earlier one on the object) with one fault kind injected at every point, or 40 evenly spread ones; '
             'non-trivial = at least one factorization failed; distinct = different hash of matrix kind, fault kind, sizes and outcomes',
        real=LIB, stub=STUB),
    'C07': dict(
        note='Allocation failure at every allocation of a call (single, bursts, exhaustion), with a ledger of live blocks, AddressSanitizer and results compared with the failure-free run.' + TRUST,
        harness=H('p_c07.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one call sequence repeated with the allocator failing at point k for all k (or evenly spread ones); non-trivial = at least one failure was delivered; '
             'distinct = different hash of operations, sizes and outcomes',
        real=LIB, stub=STUB),
    'C08': dict(
        note='Histories of calls over handles of all four types, both integer widths and the mixed-precision functions run against the C++ classes they wrap; status, outputs, statistics, messages, ownership compared; allocation, LAPACK and file faults.' + TRUST,
        harness=H('p_c08.cpp', cfgs=(0, 1), disk=True, localize='lhf*'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of 3-12 C calls over up to three matrices and two preconditioners with drawn faults; non-trivial = at least one factorization succeeded; distinct = different hash of operations and outcomes',
        real='libhifir.cpp and the whole library, system LAPACK', stub=STUB + ', malloc of the handles, files on the simulated disk'),
    'C09': dict(
        note='Enumerates LAPACK calls of factorizations and applies, failing each; and drives QRCP, SYEIG and LUP directly with matrices of known rank.' + TRUST,
        harness=H('p_c09.cpp', cfgs=(0, 1, 2, 3, 4, 5)), level='exploration', quick=18, thorough=900,
        rule='one run = one factorization plus applies with each LAPACK call failed in turn, or one history on a dense solver; non-trivial = at least one injected failure reached the library; '
             'distinct = different hash of operations, call positions and sizes',
        real='whole library, LAPACK where it is not failed', stub='return codes of LAPACK calls, allocator ledger, message sinks, clock'),
    'C10': dict(
        note='User matrix operators and null-space filters that throw, allocate, re-enter, return garbage or are swapped during a history; the preconditioner is compared with an undisturbed twin after each.' + TRUST,
        harness=H('p_c10.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of applies and refinements with scripted user callbacks and injected allocation and LAPACK failures; non-trivial = at least one callback misbehaved and a later result was compared; '
             'distinct = different hash of operations, callback scripts and outcomes',
        real=LIB, stub=STUB + ', user callbacks'),
    'C11': dict(
        note='The writers run on a simulated disk that fails, fills up, shortens or interrupts writes at any byte and at open and close; the file left is read by an independent strict parser and read back by the library.' + TRUST,
        harness=H('p_c11.cpp', cfgs=(0, 1, 2, 3, 4, 5), disk=True), level='exploration', quick=18, thorough=900,
        rule='one run = one matrix or vector written 1-4 times under drawn disk faults and locale and, when reported as written, parsed and read back; non-trivial = at least one write was reported complete or a fault was delivered; '
             'distinct = different hash of kind, sizes, faults and outcome',
        real='write_mm, read_mm and everything below them, C library formatting', stub='fopen/fwrite/fclose of the simulated disk (short, failed, interrupted writes, full disk), locale, allocator'),
    'C12': dict(
        note='The readers run on a simulated disk over damaged files (truncation, flips, lost, doubled and zeroed blocks, garbage, long tokens, hostile numbers, read errors, failing allocations), under AddressSanitizer, a bound on consumed input and a count of open handles.' + TRUST,
        harness=H('p_c12.cpp', disk=True), level='exploration', quick=18, thorough=900,
        rule='one run = one well-formed file, damaged 1-4 times, read through a drawn reader; non-trivial = the damaged file differs from the original or a read fault was delivered; distinct = different hash of outcome, file size, cut, fault position and reader',
        real='all MatrixMarket readers, C library scanning', stub='fopen/fread/fclose of the simulated disk, allocator (ledger, failure)'),
    'C13': dict(
        note='Well-formed files drawn from a grammar (storage scheme, entry order, comments, spacing, number spellings, locale) are delivered in drawn chunks to every reader; the result is compared with the matrix the file was rendered from.' + TRUST,
        harness=H('p_c13.cpp', disk=True), level='exploration', quick=18, thorough=900,
        rule='one run = one well-formed file read by up to four readers under drawn chunkings and interruptions; non-trivial = the matrix has an entry; distinct = different hash of sizes, entries, storage and kind',
        real='all MatrixMarket readers, C library scanning', stub='fopen/fread/fclose of the simulated disk (chunk sizes, interruptions), locale, allocator'),
    'C14': dict(
        note='Inputs live on pages that are write-protected during the call (and made inaccessible, freed or overwritten afterwards), outputs between guard zones; all compared byte for byte.' + TRUST,
        harness=H('p_c14.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of factorizations, applies and refinements over caller-owned arrays with injected failures and wrong sizes; non-trivial = at least one factorization succeeded and a result was compared after its matrix was gone; '
             'distinct = different hash of operations and sizes',
        real=LIB, stub=STUB + ', page protection of inputs'),
    'C15': dict(
        note='Iteration counts, flags and solutions of both refinement interfaces are compared with an independent executable model of the refinement loop, with stub operators that fault, stall or diverge.' + TRUST,
        harness=H('p_c15.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one factorization and 2-7 refinements with drawn bounds, ranks, iteration counts, operators and injected failures; non-trivial = at least one refinement did more than one iteration; distinct = different hash of arguments and outcomes',
        real=LIB, stub=STUB + ', user operators'),
    'C16': dict(
        note='Builds the full matrices of solve, transposed solve, product and transposed product for several rank arguments and checks the operator identities, then replays a mixed history against them. Orders up to 36; identities are skipped when rounding (condition) makes them meaningless.' + TRUST,
        harness=H('p_c16.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one factorization, its operator matrices for 1-5 rank arguments, and a history of 2-9 mixed or failing operations; non-trivial = operators well enough conditioned and at least one history result compared; '
             'distinct = different hash of matrix kind, sizes, ranks and operation sequence',
        real=LIB, stub=STUB),
    'C17': dict(
        note='Damages arrays of valid matrices (indices, starts, lengths, values) and watches every access with AddressSanitizer; accepted input must be valid and give results.' + TRUST,
        harness=H('p_c17.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one matrix with 0-4 damages handed to the library with checking on; non-trivial = at least one damage applied; distinct = different hash of matrix kind, damage and outcome',
        real=LIB, stub=STUB),
    'C18': dict(
        note='After every step of a fault-injected history the held factors are recounted and compared with every reported number; rank is also measured from the applied operator.' + TRUST,
        harness=H('p_c18.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of 2-8 operations (factorize, clear, move, applies, injected failures) with a recount after each; non-trivial = at least one factorization succeeded; distinct = different hash of operations and sizes',
        real=LIB, stub=STUB),
    'C19': dict(
        note='Pools of arrays, row- and column-major matrices, augmented storages, permutations and sparse vectors live through drawn histories with allocation failures against a value and ownership model; a ledger of live blocks, AddressSanitizer and an independent dense product decide.' + TRUST,
        harness=H('p_c19.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one history of operations over one pool of containers with failures armed at drawn operations; non-trivial = at least two objects shared or exchanged data and at least one content comparison was made; distinct = different hash of operations and sizes',
        real='Array, CompressedStorage, AugmentedStorage, PermMatrix, SparseVec, DenseMatrix and the product and triangular kernels behind them', stub='allocator (ledger, garbage fill, failure)'),
    'C20': dict(
        note='Every settings field is set to hostile values (not a number, infinite, negative, huge, unknown codes) in drawn combinations over histories of one object, with allocation, LAPACK and message failures on top; settings that mean the same are compared differentially, settings by name against a plain model.' + TRUST,
        harness=H('p_c20.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one object, an optional earlier factorization, one factorization with drawn settings, applies, then a factorization with sane settings compared with a fresh object; non-trivial = a hostile or equivalent change was applied; distinct = different hash of changed fields, outcome and matrix kind',
        real=LIB, stub=STUB),
    'C21': dict(
        note='Every level of an object with a history is exported in a drawn storage and an independent long-double reference multiplies and solves with the exported parts; the object has to apply exactly those, and with dropping off they have to multiply to the matrix.' + TRUST,
        harness=H('p_c21.cpp', (0, 1, 2, 3, 4, 5)), level='exploration', quick=18, thorough=900,
        rule='one run = one object through 2-7 factorizations, applies and exports with failures injected, then optionally a destroying export and a new factorization; non-trivial = at least one factorization was exported and compared; distinct = different hash of matrix kinds, outcomes and level structure',
        real=LIB, stub=STUB),
    'C22': dict(
        note='The same matrix is handed over by rows or columns, from base 0 or 1, in wrapped, owned, over-long or plain arrays, with values of another precision or real values, with start arrays of another integer width and to preconditioners of other integer types; every object has to answer bit for bit like the one from wrapped 0-based arrays, with failures in between.' + TRUST,
        harness=H('p_c22.cpp'), level='exploration', quick=18, thorough=900,
        rule='one run = one matrix, 2-5 factorizations of drawn forms on fresh or reused objects with failures injected, each compared on queries and 1-3 applies; non-trivial = at least one form compared with a successful factorization; distinct = different hash of the forms',
        real=LIB, stub=STUB),
    'C24': dict(
        note='After every successful factorization of a history with changing settings and injected failures all levels are exported and held against the settings in force on that level: thresholds, space limits, diagonal and inverse bounds, pre-processing modes, the rule for the last level and what was left out of the first one.' + TRUST,
        harness=H('p_c24.cpp', (0, 1, 2, 3)), level='exploration', quick=18, thorough=900,
        rule='one run = one object through 1-5 factorizations with drawn settings (failures injected into some), every successful one exported and checked level by level; non-trivial = at least one factorization checked; distinct = different hash of level structure and matrix kinds',
        real=LIB, stub=STUB),
    'C25': dict(
        note='Pre-processing is driven through histories of calls into the same arrays on drawn levels with failing allocations and poisoned memory; its result is held against the certificate of a maximum matching, the exact set of usable pivots and the definitions of the orderings.' + TRUST,
        harness=H('p_c25.cpp', (0, 1, 2, 3)), level='exploration', quick=18, thorough=900,
        rule='one run = 1-8 pre-processing calls with drawn matrices, levels and settings into the same arrays, allocation failures injected into some; non-trivial = at least one result checked; distinct = different hash of leading block sizes, levels and orderings',
        real='pre-processing (matching, scaling, AMD, RCM) and the containers', stub=STUB),
    'C23': dict(
        note='The library is compiled five times into one process (serial and OpenMP, with and without its internal assertions, other reserve and message settings, space dropping compiled out) and every build goes through the same history with failures injected into each; outcomes, queries and every number computed must agree.' + TRUST,
        harness=H('p_c23.cpp', gcc=True, extra=[('$SRC/gomp1.cpp', [])] + [
            ('$SRC/v_c23.cpp', ['-DCFG=%d' % c, '-DVAR=%d' % v, '-DVARNAME="%s"' % n, '-Dhif=hif_v%d' % v, '-Dworld=world_v%d' % v, '-Dgen=gen_v%d' % v] + fl)
            for c in range(4) for v, n, fl in ((0, 'serial', []), (1, 'OpenMP', ['-fopenmp']), (2, 'serial,debug', ['-DHIF_DEBUG']),
                                               (3, 'OpenMP,debug', ['-fopenmp', '-DHIF_DEBUG', '-DHIF_RESERVE_FAC=1', '-DHIF_FANCY_PREFIX']),
                                               (4, 'no space dropping', ['-DHIF_DISABLE_SPACE_DROP', '-DHIF_NO_DROP_LE_UF']))]),
        level='exploration', quick=18, thorough=900,
        rule='one run = one history of 2-7 operations (factorize, clear, applies) on one object per build, with a failure injected into some of the factorizations of each build; non-trivial = a factorization and an apply after it succeeded and were compared; distinct = different hash of matrices, outcomes and operations',
        real=LIB + ', each in five build configurations', stub=STUB + ', OpenMP runtime (teams of one)'),
}
