#!/usr/bin/env python3
# Source of properties.jsonl (kept as code only because hand-writing JSON lines is error prone).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Threaded factorization equals the one-thread factorization on every schedule",
"Factorizing a matrix with any requested thread count yields the same preconditioner as factorizing it with one thread: the same levels, sizes, fill, ranks and dropping statistics, and the same solutions up to rounding. This holds for every interleaving of the worker threads and when the OpenMP runtime delivers fewer threads than were requested. No two threads access the same memory location without synchronisation when one of them writes it.",
["schedules","configurations","inputs"],
"All team sizes requested (1..N rows and more) and delivered (1..requested), all interleavings of the Schur-complement and offset-dropping regions, all matrices (real/complex, row/column major, pivoting on/off/auto, symmetric) large enough to use them.",
"The unit tests run the threaded Schur kernel once per machine-chosen schedule, on a full-size team; nothing controls the interleaving, nothing ever delivers a smaller team, and the end-to-end tests stay under the thresholds that switch threading on.",
["src/hif/alg/Schur.hpp","src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/utils/mt.hpp","src/hif/builder.hpp"],
[("parallel regions with a barrier between counting and filling","src/hif/alg/Schur.hpp mt::compute_Schur_simple"),("per-thread buffers and partitioned offset dropping","src/hif/alg/Schur.hpp mt::drop_L_E_and_U_F"),("row partition","src/hif/utils/mt.hpp uniform_partition")],
observe=["levels()/nnz()/rank()/stats() after factorize","solve() output"])

p("C02","Threaded products equal the serial ones under any team and schedule",
"The multi-threaded matrix-vector and matrix-multivector products, and iterative refinement built on them, write every output entry and produce the values of the serial product up to rounding, for every requested thread count, every smaller team the runtime delivers (including calls from inside a parallel region) and every interleaving. The input vector and matrix are only read, and no two threads touch the same output entry unsynchronised.",
["schedules","configurations","inputs"],
"All matrices (row/column major, rectangular for the plain product, empty rows, few rows with many entries), real/complex/mixed precision vectors, 1..k right-hand sides, requested teams 1..more than rows, delivered teams 1..requested, all interleavings.",
"The unit test of the threaded product runs one random matrix on the schedule the machine happens to produce and always gets the full team; no test calls it from inside a parallel region or under a thread limit.",
["src/hif/utils/mt_mv.hpp","src/hif/utils/mt.hpp","src/hif/alg/IterRefine.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/builder.hpp"],
[("row partition per thread id","src/hif/utils/mt.hpp uniform_partition"),("parallel regions of the four product entry points","src/hif/utils/mt_mv.hpp")],
observe=["output vectors of mt::multiply_nt/multiply_mrhs_nt and of hifir()"])

p("C03","Concurrent callers working on different objects do not disturb each other",
"When several caller threads each create, factorize, apply, refine, query and destroy their own preconditioner objects (C++ or C interface) at the same time, each call returns the result, status and error message it would return if the other callers were not running. No interleaving leads to unsynchronised conflicting accesses to shared memory inside the library.",
["schedules","histories"],
"All interleavings of 2..4 caller threads with individual operation lists over disjoint objects, with succeeding and failing calls mixed, verbose output on or off, and equal or different thread-count options.",
"The tests are single threaded callers; no test runs two callers concurrently, so shared hidden state (thread-count cache, error-message buffer, one-time banner) is never exercised.",
["src/hif/utils/mt.hpp","src/hif/builder.hpp","libhifir/src/libhifir.cpp","src/hif/utils/mt_mv.hpp"],
[("workspaces held per object, not globally","src/hif/builder.hpp _prec_work, _ir"),("process-wide caches","src/hif/utils/mt.hpp get_nthreads; src/hif/builder.hpp introduced; libhifir.cpp error_msgs")],
observe=["return values, outputs and lhfGetErrorMsg of each caller"])

p("C04","Results do not depend on heap contents, clock, verbosity or environment",
"Two executions of the same sequence of calls on the same inputs give bit-identical outputs, statistics and errors, whatever garbage freshly allocated memory contains, whatever the system clock does (jumps backwards and forwards included), whatever message level is selected, and whatever the values of the thread-count environment variables are.",
["histories","configurations","fault_sequences"],
"All call histories over factorize/solve/transposed solve/multiply/refine/multi-RHS on all scalar types and storage orders, crossed with heap fill patterns, clock behaviours, verbosity masks and environment settings.",
"Tests run once in one environment on mostly fresh zeroed pages; an uninitialised read or a time-dependent path gives the same answer there nearly always.",
["src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/alg/Crout.hpp","src/hif/alg/prec_solve.hpp","src/hif/ds/SparseVec.hpp","src/hif/utils/Timer.hpp","src/hif/utils/mt.hpp"],
[("every buffer is written before it is read","src/hif/ds/SparseVec.hpp; src/hif/alg/Crout.hpp"),("time is only reported","src/hif/utils/Timer.hpp"),("messages guarded by hif_verbose","src/hif/utils/common.hpp")],
observe=["outputs, nnz()/stats()/levels(), exceptions"])

p("C05","A reused preconditioner behaves like a freshly built one",
"After any history of factorizations (of matrices of different size, storage order, symmetry and options), clears, solves, transposed solves, products, refinements and failed calls on one preconditioner object, a successful factorization leaves an object whose every later answer (solutions, sizes, fill, ranks, statistics) is the one a new object given only that last factorization would give. Clearing the object, or never having factorized it, makes every apply call fail with an error and every size query report empty.",
["histories","fault_sequences","inputs"],
"All histories up to the stated length over all public operations with matrices growing and shrinking between factorizations, mixed real types for right-hand sides, single and multiple right-hand sides in any order, attached and detached null-space filters, and injected failures of intermediate calls.",
"Unit tests build one object, factorize once and apply one kind of operation; workspaces that are sized by an earlier call or earlier matrix are never reused by a different one.",
["src/hif/builder.hpp","src/hif/alg/prec_solve.hpp","src/hif/alg/prec_prod.hpp","src/hif/alg/IterRefine.hpp","src/hif/alg/Prec.hpp","src/hif/small_scale/QRCP.hpp","src/hif/small_scale/LUP.hpp","src/hif/small_scale/SYEIG.hpp"],
[("previous levels and workspace wiped on factorize","src/hif/builder.hpp factorize"),("workspace sized on first apply","src/hif/builder.hpp solve/solve_mrhs/mmultiply"),("clear","src/hif/builder.hpp clear")],
state=[("_prec_work","shared apply workspace, sized lazily","src/hif/builder.hpp"),("_precs","levels of the current factorization","src/hif/builder.hpp"),("_stats","counters of the current factorization","src/hif/builder.hpp")],
observe=["all outputs and queries"])

p("C06","A factorization that fails leaves an empty, reusable object",
"When a factorization stops with an error at any point (allocation failure, dense-kernel failure, rejected input, error raised by a message sink), the error reaches the caller and the object is left empty: it reports zero levels and fill, and apply calls report an error instead of using a partially built preconditioner. A later factorization of the same object succeeds and gives the same answers as on a fresh object.",
["fault_sequences","crash_points","histories"],
"Every point inside a factorization at which one of these failures can be made to occur, at every level of the multilevel hierarchy, on objects that were empty or already factorized before.",
"Tests contain no failing factorization except shape errors raised before any work has been done.",
["src/hif/builder.hpp","src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/alg/Prec.hpp"],
[("levels appended one by one during the recursion","src/hif/builder.hpp _factorize_kernel"),("emptiness test before applying","src/hif/builder.hpp solve")],
observe=["exception from factorize; empty(), levels(), nnz(); later solve()"])

p("C07","Running out of memory is reported, never turned into corruption or wrong results",
"If any memory allocation fails during any public operation, that operation either reports an error or completes with the correct result; it never crashes, reads or writes outside its objects, returns a different answer, or loses track of memory. Afterwards every object involved can be queried, reused and destroyed safely.",
["fault_sequences","crash_points","inputs"],
"Every single allocation of factorize (all variants), solve, multiply, refine, multi-RHS, matrix construction/conversion and file reading failing once, and failing from that point on for a while.",
"No test makes an allocation fail; the release-build error paths of the containers have never been executed.",
["src/hif/ds/Array.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/ds/DenseMatrix.hpp","src/hif/ds/SparseVec.hpp","src/hif/builder.hpp","src/hif/alg/factor.hpp","src/hif/utils/io.hpp","libhifir/src/libhifir.cpp"],
[("non-throwing new with a status flag","src/hif/ds/Array.hpp"),("status checks at selected call sites","src/hif/alg/factor.hpp"),("reference-counted ownership","src/hif/ds/Array.hpp _RefCount")],
observe=["exception/status of the call, result vectors, allocator ledger"])

p("C08","The C interface turns every outcome into a status; no exception gets out",
"Every function of the C interface returns a status, size or handle for any argument order and any internal failure and never terminates the caller with an exception; it returns success exactly when the corresponding C++ operation succeeds, with the same output, and otherwise the documented status (null object, mismatched sizes, library error) with the outputs' ownership unchanged. A library error leaves a retrievable message that is reported exactly once and belongs to the latest failed call.",
["histories","fault_sequences","inputs"],
"All call histories over matrix/preconditioner handles (null, empty, wrong size, reused, refactorized, updated operator) for the four scalar types and the mixed-precision variants, both integer widths, with injected allocation, file and dense-kernel failures.",
"The C tests make a handful of happy-path calls on one matrix; no failing status is ever checked and no fault injected.",
["libhifir/src/libhifir.cpp","libhifir/include/libhifir.h"],
[("try/catch around every C++ call","libhifir/src/libhifir.cpp"),("null checks","libhifir/src/libhifir.cpp _LHF_CANNOT_ACCEPT_NULL"),("two-slot error message","libhifir/src/libhifir.cpp error_msgs")],
observe=["LhfStatus values, handles, lhfGetErrorMsg, output buffers"])

p("C09","A dense-kernel failure is surfaced and never used as a result",
"If a LAPACK routine used for the dense last level reports that it failed (illegal argument, no convergence), during factorization or during any apply operation, the calling operation reports an error and no solution is returned as valid. A reported singular pivot is not an error but lowers the numerical rank the object reports.",
["fault_sequences","configurations","inputs"],
"Every call of every LAPACK routine the dense level makes, for QR, LU and symmetric eigenvalue back ends, all four scalar types, at factorization and at apply time, plain/transposed/multi-RHS.",
"LAPACK never fails in the tests, so none of the result-code branches has run.",
["src/hif/small_scale/QRCP.hpp","src/hif/small_scale/LUP.hpp","src/hif/small_scale/SYEIG.hpp","src/hif/small_scale/lapack.hpp","src/hif/small_scale/lapackf.hpp"],
[("result-code checks","src/hif/small_scale/*.hpp factorize/solve/multiply")],
observe=["exception of factorize/solve/mmultiply/hifir, rank()"])

p("C10","Failing or misbehaving user callbacks cannot damage the preconditioner",
"User code is called back with the right vector, length and type tag (null-space filters after every solve, on the side, plain or transposed, it was attached to; operators during refinement). If a callback raises an error, it reaches the caller unchanged, and the preconditioner, the right-hand side and the attached filters are left as they were, so that the next call with a working callback gives the correct result.",
["fault_sequences","histories","crash_points"],
"Every invocation of a filter or operator callback at which it may throw or write partially, in every history of solves/refinements, with constant (full or partial range), callback and overridden filters.",
"Tests attach one constant filter and never make a callback fail.",
["src/hif/NspFilter.hpp","src/hif/builder.hpp","src/hif/alg/IterRefine.hpp","src/hif/utils/mt_mv.hpp","src/hif/utils/mv_helper.hpp"],
[("filter application after the triangular solves","src/hif/builder.hpp solve"),("operator dispatch","src/hif/utils/mt_mv.hpp; src/hif/utils/mv_helper.hpp")],
observe=["callback arguments, propagated exception, later outputs"])

p("C11","A MatrixMarket file reported as written is complete and faithful",
"If writing a sparse matrix or vector to a MatrixMarket file returns normally, the file on disk denotes exactly that matrix or vector (every entry, position and value to the precision of its type) and reading it back yields it. If any part of the output could not be stored (open failure, full disk, I/O error, at open, write or close), the write reports an error.",
["fault_sequences","crash_points","inputs"],
"All matrices/vectors (real/complex, single/double, row/column major, empty rows, extreme values) and every point of the output stream at which the disk fails, shortens a write or is full.",
"The round-trip test writes a small file on a healthy disk.",
["src/hif/utils/io.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/ds/Array.hpp"],
[("stream writers","src/hif/utils/io.hpp write_mm_sparse/write_mm_vector")],
observe=["exception of write_mm, bytes on the simulated disk, read-back"])

p("C12","Reading a damaged or failing file is safe and bounded",
"Reading any byte sequence as a MatrixMarket matrix or vector, from a stream that may end, fail or be damaged at any byte, finishes after a bounded amount of input, never touches memory outside its buffers, releases the file handle, and either reports an error or returns a structurally valid matrix (indices in range, as many entries as announced). A stream that ends or fails before all announced data was delivered is always reported as an error (only an end inside the very last number cannot be told from a file without a final newline).",
["fault_sequences","crash_points","inputs"],
"All truncation points, read errors, flipped/inserted/deleted bytes, over-long lines and hostile size lines applied to valid files of every kind, for the C++ readers and the C query/read functions.",
"Tests read two well-formed files; no truncated, corrupted or failing stream is ever presented.",
["src/hif/utils/io.hpp","src/hif/utils/coo2compress.hpp","src/hif/ds/CompressedStorage.hpp","libhifir/src/libhifir.cpp"],
[("header and size-line parsers","src/hif/utils/io.hpp mm_read_firstline, mm_read_*_size"),("entry loops with item-count checks","src/hif/utils/io.hpp mm_read_*_data"),("coordinate to compressed conversion","src/hif/utils/coo2compress.hpp")],
observe=["exception/status, returned matrix, open handles, bytes consumed"])

p("C13","A readable file yields exactly the matrix it denotes, however it is delivered",
"Reading a well-formed MatrixMarket file gives the matrix or vector the format defines: general, symmetric, Hermitian and skew-symmetric storage expanded, one-based indices shifted, entries in any order sorted by row or column. The result is the same for every way the stream is delivered (any chunk sizes; a failed or interrupted read may be reported as an error but never changes the values), and independent of comments, blanks, letter case and number spelling.",
["inputs","fault_sequences","configurations"],
"All well-formed files over storage schemes, entry orders, comment placements, spacing, number formats and sizes, times all chunkings of the stream and benign interruptions, into row and column major storage of every scalar type and integer width.",
"Tests read two fixed files in general storage with whole-file buffering.",
["src/hif/utils/io.hpp","src/hif/utils/coo2compress.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/ds/Array.hpp","libhifir/src/libhifir.cpp"],
[("storage-scheme expansion","src/hif/utils/io.hpp mm_read_sparse_data"),("sorting into compressed form","src/hif/utils/coo2compress.hpp")],
observe=["the returned matrix, compared with an independent parser"])

p("C14","Caller-owned inputs are never modified",
"No public operation changes the matrices, index arrays, right-hand sides, options or bounds the caller passes as inputs, whether it succeeds, fails or is interrupted by an injected fault, and none writes outside the output range it is given. After a factorization returns, the preconditioner no longer depends on the caller's matrix: overwriting or freeing it changes no later answer.",
["histories","fault_sequences","inputs"],
"All operations and histories over wrapped external arrays with zero- and one-based indices, same or converted value type, both storage orders, with failures injected at any point.",
"Tests keep the matrix alive and do not compare it before and after; wrapped arrays are cast from const internally.",
["src/hif/builder.hpp","src/hif/ds/Array.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/alg/factor.hpp","libhifir/src/libhifir.cpp"],
[("shallow wrapping of user arrays","src/hif/builder.hpp factorize"),("ownership status of arrays","src/hif/ds/Array.hpp")],
observe=["byte comparison and write-protected pages around all inputs"])

p("C15","Iterative refinement reports honestly what it did",
"Refinement with residual bounds returns the iterate, the number of preconditioner applications and the flag of the documented recurrence: converged only if the measured relative residual is at or below the lower bound, diverged only if it exceeds the upper bound, otherwise the iteration limit was reached; with more than one iteration allowed, a zero right-hand side gives zero solution, zero iterations and convergence (an iteration limit of one or less is a plain solve and is reported as limit reached). This stays true, iteration by iteration, for transposed systems, every scalar type, any bound pair and operators that start to return corrupted, huge or non-finite values at any iteration.",
["fault_sequences","histories","inputs"],
"All operator kinds (row/column major matrix, callback, mixed precision), iteration limits, bound pairs, rank arguments, and all points at which the operator's output is corrupted.",
"One test runs refinement to convergence on one system; divergence, limit and corrupted-operator paths are not observed.",
["src/hif/alg/IterRefine.hpp","src/hif/builder.hpp","src/hif/utils/mv_helper.hpp","libhifir/src/libhifir.cpp"],
[("stationary iteration loop","src/hif/alg/IterRefine.hpp iter_refine")],
observe=["returned pair, solution vector, sequence of operator calls"])

p("C16","All ways of applying a preconditioner realise one operator, in any order of use",
"For one factorization, the plain solve, the transposed solve, the multiple-right-hand-side solve, the product and the one-step refinement agree: each column of a multi-RHS solve equals the single solve, the transposed operations are adjoints of the plain ones, the product inverts the solve when the preconditioner has full rank, and a rank argument truncates the last level consistently. This holds whatever mixture of these operations, on whatever scalar types, was executed on the object before, failed ones included.",
["histories","inputs","fault_sequences"],
"All interleavings of the apply operations on one object (they share hidden workspaces), all scalar types of vectors, 1..5 right-hand sides, all dense back ends, one or many levels, full or deficient rank, with failing calls in between.",
"Tests call each apply operation on its own fresh object and check residual size, not the relation between operations.",
["src/hif/alg/prec_solve.hpp","src/hif/alg/prec_prod.hpp","src/hif/builder.hpp","src/hif/small_scale/QRCP.hpp","src/hif/small_scale/LUP.hpp","src/hif/small_scale/SYEIG.hpp","src/hif/ds/AugmentedStorage.hpp","src/hif/ds/CompressedStorage.hpp"],
[("multilevel apply recursions","src/hif/alg/prec_solve.hpp, prec_prod.hpp"),("dense last level","src/hif/small_scale")],
observe=["output vectors of all apply operations, compared with each other and with a dense model of the stored factors"])

p("C17","Corrupted matrix arrays are rejected or handled, never followed out of bounds",
"With input checking enabled (the default), factorizing a matrix whose arrays were damaged (row pointers not monotone or inconsistent with the arrays, indices out of range, duplicated or unsorted, wrong index base) reports an error instead of computing with it. Damaged values (non-finite, zero, huge, tiny, all-zero rows or columns) never lead to out-of-bounds accesses, crashes or endless computation: the call ends in an error or in an object that can be queried, applied and destroyed.",
["fault_sequences","inputs"],
"All single and multiple corruptions (bit flips, zeroed or torn blocks, swapped entries) of the three arrays of valid matrices, at any position, all scalar types, storage orders and factorization variants.",
"No test passes an invalid matrix to the factorization.",
["src/hif/builder.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/pre/driver.hpp","src/hif/pre/equilibrate.hpp","src/hif/pre/amd.hpp","src/hif/alg/factor.hpp"],
[("validity check of the input","src/hif/ds/CompressedStorage.hpp check_validity"),("shape checks","src/hif/builder.hpp")],
observe=["exception of factorize, memory accesses, later calls"])

p("C18","Reported sizes, fill, ranks and statistics always describe the held factors",
"At every point of every history the numbers an object reports (levels, rows and columns, total and offset fill, rank, last-level size and rank, deferral and dropping statistics, and their C-interface counterparts) agree with the factors it actually holds and applies: level sizes chain, fill equals the number of stored entries, rank equals order minus last-level deficiency, deferral counts are consistent with the order and with each other. An object that holds nothing reports zeros.",
["histories","fault_sequences","configurations"],
"All histories of factorize/apply/clear/failed calls and all option combinations (pivoting, symmetric, leading block, no preprocessing, dense threshold), all scalar types.",
"Tests print the numbers; none compares them with the stored factors, and none queries an object after a failure or clear.",
["src/hif/builder.hpp","src/hif/alg/Prec.hpp","libhifir/src/libhifir.cpp","src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp"],
[("per-level accounting","src/hif/alg/Prec.hpp nnz, nnz_ef"),("aggregates","src/hif/builder.hpp nnz, rank, schur_size"),("statistics counters","src/hif/alg/*factor.hpp stats")],
observe=["query functions against the exported level components"])

p("C19","Containers keep value and ownership semantics through any history",
"Arrays and sparse matrices behave like their documented value model through any history of constructing, wrapping, shallow copying, cloning, moving, swapping, assigning, resizing, reserving, appending, converting between row and column storage, transposing, scaling, splitting, stealing and destroying: shallow copies share, clones do not, wrapped memory is never freed or reallocated, contents are preserved by growth, and conversion preserves every entry. Products and triangular solves in every form - row or column storage, transposed or conjugate transposed, one or several right-hand sides, partial ranges - realise the operator the entries denote, and so do the augmented storages after any row or column interchanges. Memory is freed exactly once and only when its last owner disappears, also when allocations fail in between.",
["histories","fault_sequences","inputs"],
"All operation sequences up to the stated length over a pool of interacting containers of several element types, with allocation failures injected at any operation.",
"Unit tests exercise each operation once from a fresh object; ownership bugs need particular sequences (move then reuse, share then grow, fail then destroy).",
["src/hif/ds/Array.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/ds/DenseMatrix.hpp","src/hif/ds/SparseVec.hpp","src/hif/ds/PermMatrix.hpp"],
[("reference counting and ownership status","src/hif/ds/Array.hpp"),("storage conversion","src/hif/ds/CompressedStorage.hpp convert_storage")],
observe=["contents against a model, allocator ledger"])

p("C20","Every settings value is honoured, normalised or rejected, and harmless",
"Whatever values the control parameters hold - zero, negative, huge, infinite or not-a-number numbers, unknown codes, combinations that make no sense, a leading block larger than the matrix - factorization terminates after bounded work and either raises an error that leaves the object empty, or yields an object that reports consistent sizes and can be applied repeatably; no setting makes the library touch memory it does not own, and afterwards the object factorizes with sane settings exactly like a fresh one. Values documented as meaning the same (any negative reference size and the system size, any non-positive dense threshold or rank tolerance and the default, any nonzero value of a switch, fields that do not apply to the chosen mode, validity checking of a valid matrix, the verbosity and the thread count) give the same object, and setting a field by its name changes that field to that value and no other, while unknown names are reported and change nothing; switching messages on adds exactly the given flags, values read from a stream arrive in the fields in order, and the textual form shows each field's value.",
["inputs","configurations","fault_sequences","histories"],
"All combinations of values of the 28 settings fields and the leading block size over all matrices, before and after other uses of the object, also when memory, the dense kernel or the message sink fails meanwhile.",
"Unit tests run with default-like settings; the space of combinations is unbounded and what matters is that none of them corrupts memory, hangs or spoils the object.",
["src/hif/Options.h","src/hif/builder.hpp","src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/pre/driver.hpp"],
[("defaults and sentinels","src/hif/Options.h"),("setting by name","src/hif/Options.h set_option_attr"),("flags, stream input and textual form","src/hif/Options.h enable_verbose, operator>>, opt_repr"),("reference size and mode dispatch","src/hif/builder.hpp _factorize_kernel"),("rank tolerance","src/hif/small_scale/QRCP.hpp")],
observe=["status, object queries and repeated applies, differential comparison of equivalent settings"])

p("C21","Exported factors are the ones applied; nothing dropped means nothing lost",
"After any history the parts of every level that an object hands out - leading triangular factors and diagonal, offsets, scalings, permutations with their inverses, dense last level - are well formed, agree with the inquired sizes, do not depend on the storage they are exported to nor on how often they are exported, and denote exactly the operator that the object multiplies with and, at full rank, solves with, transposed or not. When dropping is switched off (no thresholds, no limit on the fill) they multiply to the matrix that was factorized up to rounding, in every mode: unsymmetric, symmetric or Hermitian, symmetric leading block, one or many levels, pivoting or not. Exporting does not change the object, a destroying export hands over the same parts and releases them, and the object can be factorized again afterwards.",
["histories","fault_sequences","inputs","configurations"],
"All matrices, settings, scalar types and export storages, after all histories of factorizations, applies, exports and failures in between.",
"No test exports a level or compares the factors with what the object applies; a factor that is wrong in one rare mode still gives some preconditioner and every test passes.",
["src/hif/alg/Prec.hpp","src/hif/alg/factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/Schur.hpp","src/hif/alg/Crout.hpp","src/hif/alg/prec_prod.hpp","src/hif/alg/prec_solve.hpp","src/hif/ds/CompressedStorage.hpp"],
[("export of one level","src/hif/alg/Prec.hpp export_sparse_data, inquire_or_export_dense"),("assembly of a level","src/hif/alg/factor.hpp, symm_factor.hpp, pivot_factor.hpp emplace_back"),("Schur complement","src/hif/alg/Schur.hpp compute_Schur_simple")],
observe=["exported arrays against products, solves and the input matrix"])

p("C22","The way a matrix is handed over does not matter",
"Every accepted form of one matrix - compressed by rows or by columns, numbered from zero or from one, in arrays that are wrapped, owned by the matrix object or passed plainly, with arrays longer than needed, with values of another precision that holds them exactly or with real values for a complex preconditioner, with index and start arrays of any of the integer types the interface accepts, and for preconditioners that only differ in their integer types - gives the same outcome and a preconditioner that reports and computes bit for bit the same, whatever the object was used for before and whatever failed meanwhile. (In symmetric mode one triangle is read, so there rows and columns are two different inputs.) The arrays handed over are not changed, and nothing beyond the end of the matrix is read.",
["inputs","configurations","fault_sequences","histories"],
"All matrices, all forms and types and all sequences of them on one object, also when memory, the dense kernel or the message sink fails in between.",
"Tests hand their matrices over in one or two forms; the forms multiply with each other and with the history of the object, and a wrong conversion still gives some preconditioner.",
["src/hif/builder.hpp","src/hif/ds/CompressedStorage.hpp","src/hif/ds/Array.hpp","src/hif/pre/driver.hpp"],
[("acceptance and conversion of the input","src/hif/builder.hpp HIF::factorize"),("storage conversion","src/hif/ds/CompressedStorage.hpp")],
observe=["status, object queries and applies, compared with the plainest form"])

p("C23","Build options do not change results, and the internal assertions hold",
"Built with or without OpenMP, with or without the internal assertions (HIF_DEBUG), with any reserve factor and either message prefix, and without the space control (HIF_DISABLE_SPACE_DROP) when the space limits set are out of reach, the library does the same thing with the same calls: the same outcomes, the same reported sizes, ranks and statistics, bit for bit the same numbers with one thread, after any history of factorizations, failures, clears and applies. For valid input no internal assertion ever fires, and a failure (memory, dense kernel, message sink) is raised to the caller in every build and never ends the process.",
["histories","fault_sequences","inputs","configurations"],
"All matrices, settings and histories in all builds, also when memory, the dense kernel or the message sink fails in any of them.",
"The tests run in one build; the assertions are compiled out there, and the OpenMP and serial builds take different code paths for the Schur complement and the dropping.",
["src/hif/macros.hpp","src/hif/utils/log.hpp","src/hif/utils/mt.hpp","src/hif/alg/Schur.hpp","src/hif/alg/Crout.hpp","src/hif/alg/PivotCrout.hpp","src/hif/ds/AugmentedStorage.hpp","src/hif/ds/Array.hpp","src/hif/builder.hpp"],
[("assertions","src/hif/utils/log.hpp hif_assert, hif_debug_code"),("serial and threaded Schur complement and dropping","src/hif/alg/Schur.hpp compute_Schur_simple, drop_L_E, drop_U_F, mt::"),("introduction","src/hif/builder.hpp factorize")],
observe=["status, queries and applies of every build"])

p("C24","Thresholds, limits and modes that are set are the ones obeyed on every level",
"In the factors of every successful factorization, whatever was computed with the object before, each level obeys the settings in force there (those given, or with rf_par those refined for that level): no diagonal entry is smaller than 1/kappa_d, and with spd none has the wrong sign; the estimated inverse norms of L and U stay within kappa; no entry of L (U) at or below tau_L (tau_U) over the two condition bounds is kept and nothing above tau_L (tau_U) over kappa_d is left out unless the space limit forces it; no column of L (row of U) holds more than alpha_L (alpha_U) times the entries of the column (row) of the input (four times that with pivoting). Symmetric pre-processing is used exactly where asked for and permutes and scales rows and columns alike, without pre-processing nothing is scaled or reordered, the matching makes the pivots of the first level the largest entries, beta bounds the imbalance of later scalings, a level is the last one exactly when rho, alpha, dense_thres, c_d and N say so, and the dense Schur complement of a first level whose own factors were not limited is the one whose offsets keep the largest entries up to alpha (doubled by fat_schur_1st).",
["histories","inputs","configurations","fault_sequences"],
"All matrices, settings (given independently for L and U) and histories of one object, with allocation, dense-kernel and message failures in earlier factorizations; all levels of all kernels.",
"Tests check residuals and iteration counts with one set of equal thresholds, where exchanged, ignored or stale settings change nothing that is looked at.",
["src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp","src/hif/alg/symm_factor.hpp","src/hif/alg/thresholds.hpp","src/hif/alg/Crout.hpp","src/hif/alg/PivotCrout.hpp","src/hif/pre/matching_scaling.hpp","src/hif/pre/EqlDriver.hpp","src/hif/pre/equilibrate.hpp","src/hif/Options.h"],
[("refined settings","src/hif/alg/factor.hpp determine_fac_pars"),("droppings","src/hif/alg/thresholds.hpp"),("deferrals","src/hif/alg/factor.hpp is_bad_diag, update_kappa"),("symmetric or asymmetric pre-processing","src/hif/alg/factor.hpp do_symm_pre; src/hif/alg/pivot_factor.hpp must_symm_pre_lvls"),("last level","src/hif/alg/factor.hpp dense_thres1, dense_thres2"),("poor scalings","src/hif/pre/matching_scaling.hpp fix_poor_scaling")],
observe=["factors, permutations and scalings exported after each factorization; stats()"])

p("C25","Pre-processing yields permutations, bounded scalings and the ordering asked for",
"Whatever was pre-processed with the same arrays before, on every level, with every pre-scaling and under failing allocations, pre-processing either reports a failure or returns two permutations with their inverses that leave everything outside of the leading block alone; where a perfect matching of the leading block exists, positive finite scalings under which (on the first level) no entry exceeds one and every matched entry is one, so that the matching is a maximum one, and later matched pairs of scales within beta of each other; under symmetric pre-processing rows and columns are permuted and scaled alike. Exactly the pivots that are missing or negligible are put behind all others. AMD orderings of forests cause no fill, RCM orderings are reversed Cuthill-McKee orderings (components in one piece, breadth first, by increasing degree, trees from an end of a longest path), no reordering keeps the order. A structurally singular matrix is not refused, and the matrix is unchanged.",
["histories","inputs","configurations","fault_sequences"],
"All matrices including structurally singular ones, leading block sizes, levels, matching, pre-scaling and reordering settings, value and integer types, allocation failures, heap contents.",
"Pre-processing is only tested through the residual of a few regular matrices; a wrong but valid permutation or scaling still gives a preconditioner.",
["src/hif/pre/driver.hpp","src/hif/pre/matching_scaling.hpp","src/hif/pre/EqlDriver.hpp","src/hif/pre/equilibrate.hpp","src/hif/pre/a_priori_scaling.hpp","src/hif/pre/reordering.hpp","src/hif/pre/amd.hpp","src/hif/pre/rcm.hpp"],
[("maximum-weight matching","src/hif/pre/equilibrate.hpp"),("pre-scaling","src/hif/pre/a_priori_scaling.hpp"),("static deferrals","src/hif/pre/matching_scaling.hpp defer_tiny_diags"),("poor scalings","src/hif/pre/matching_scaling.hpp fix_poor_scaling"),("orderings","src/hif/pre/reordering.hpp run_amd, run_rcm")],
observe=["permutations, scalings and leading block size returned by do_preprocessing"])

# --- not claimed: pure functions of their input, no schedule, fault, time or history ---
NA=["inputs"]
p("C50","Near-linear work of factorization and solve",
"Factorization and solve take near-linear time and memory in the number of nonzeros. (That the fill stays within the space limits the user sets is part of C24.)",
["inputs","configurations"],"All matrices and control parameters.","Complexity is a limit statement; tests use a few sizes.",
["src/hif/alg/factor.hpp","src/hif/alg/Crout.hpp"],[("space-controlled dropping","src/hif/alg/Crout.hpp apply_space_dropping")])
p("C51","Preconditioner quality: refinement converges for well-conditioned systems",
"For systems whose dropping thresholds are small enough, the preconditioned operator is close to the identity, so refinement converges to the solution at working precision.",
["inputs","configurations"],"All nonsingular matrices and parameter choices.","Numerical quality over all matrices cannot be sampled by fixed systems.",
["src/hif/alg/factor.hpp","src/hif/alg/pivot_factor.hpp"],[("inverse-based dropping and deferring","src/hif/alg/factor.hpp")])
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
