#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Point counts equal the definition",
  "For every odd prime p, every base field F_q with q = p^r, and every right hand side f of degree at least 3 over F_q, the table-based count over each extension F_{q^l} reports exactly the ramified points (x with f(x) = 0, plus one point at infinity when deg f is odd) and the unramified points (two for every x, infinity included, where f takes a nonzero square) of y^2 = f(x). The result depends only on the curve and the extension: not on zero coefficients, vanishing or trailing, not on the curves counted before with the same tables, and not on the size of the field.",
  ["inputs", "configurations"], "all odd p, base exponents r, extension degrees l, coefficient vectors (sparse, dense, trailing zeros, zero constant term), both parities of the degree, any degree relative to the field size",
  "The tests count two fixed curves over F_5, F_25 and F_7, F_49 with base exponent 1; the statement is over all fields, degrees and coefficient patterns.",
  ["src/curve.cc", "src/curve.hh", "src/reduction_table.cc", "src/fq_element_table.cc"],
  [("Zech-style tables: exponent reduction and incrementation (log(1+a^i))", "src/reduction_table.cc"),
   ("conversion of coefficient exponents to the extension", "src/curve.cc convert_poly_coeff_exponents"),
   ("Horner-free exponent evaluation plus the special cases x = 0 and x = infinity", "src/curve.cc count, count_cpu")],
  [("nmb_points", "per extension exponent: (unramified, ramified)", "src/curve.hh")], ["Curve::number_of_points()"])

prop("C02", "Counting implementations agree and recounting changes nothing",
  "For every curve and extension the table-based count and the two naive counts (nmod and Zech arithmetic) report the same pair of unramified and ramified points. Counting is idempotent: in any sequence of counts over any extensions with any mixture of implementations, repetitions included, every number already reported stays as it was, and the set of extensions reported as counted (and the largest exponent up to which counting is complete) is exactly the set requested so far.",
  ["inputs", "histories"], "all curves over odd fields and all finite sequences of count requests (implementation, extension exponent) on one curve object",
  "The tests run each implementation once, in one fixed order, on two curves and never compare implementations on other inputs or count twice.",
  ["src/curve.cc", "src/curve.hh", "src/single_curve_fp.cc"],
  [("early return when the exponent has been counted", "src/curve.cc count, count_naive_nmod, count_naive_zech"),
   ("compatible generators (Conway polynomials)", "src/curve.cc, src/fq_element_table.cc, src/reduction_table.cc")],
  [("nmb_points", "counts recorded so far", "src/curve.hh")], ["Curve::number_of_points", "Curve::has_counted", "Curve::max_prime_exponent"])

prop("C03", "Ramification type and squarefree test are exact",
  "A right hand side is accepted as squarefree exactly if it has no repeated factor over its base field. For every squarefree right hand side of degree at least 3 the reported ramification type is the ascending list of the degrees of its irreducible factors over the base field, with an extra 1 for the point at infinity if the degree is odd. The type is the same whichever extensions (none, some, with gaps, or more than the genus) have been counted before it is asked for.",
  ["inputs", "histories"], "all right hand sides over F_q (prime and non-prime q, odd), all sets of previously counted extensions",
  "No running test looks at ramification types or at the squarefree test; the type is derived from point counts in some histories and by factoring in others.",
  ["src/curve.cc"],
  [("ramified points per extension give the number of factors per degree", "src/curve.cc ramification_type"),
   ("fallback to factoring when too few counts are known", "src/curve.cc ramification_type"),
   ("squarefree test by FLINT on the converted polynomial", "src/curve.cc has_squarefree_rhs")],
  [("nmb_points", "decides which of the two derivations is used", "src/curve.hh")], ["Curve::ramification_type", "Curve::has_squarefree_rhs"])

prop("C04", "Hasse-Weil offsets satisfy the laws of curves over finite fields",
  "For every squarefree right hand side of degree at least 3 the reported offset over F_{q^l} is q^l + 1 minus the number of points, has absolute value at most 2 g q^(l/2), and the offsets for l = 1, 2, ... are the power sums of an integral zeta numerator satisfying the functional equation. Counts, offsets and ramification type are unchanged under x -> ax+b, under reversing the curve (x -> 1/x) and under scaling by nonzero squares; scaling by a non-square flips the sign of the offsets in odd extensions only and keeps the ramification type.",
  ["inputs"], "all squarefree curves over odd F_q up to large fields (also those too large for brute force), all affine substitutions, reversals and scalings",
  "The tests check four offsets of two curves; symmetry laws quantify over pairs of related curves, and they reach fields where no brute-force count is affordable.",
  ["src/curve.cc", "src/fq_element_table.cc", "src/reduction_table.cc"],
  [("offset computed from the two counts", "src/curve.cc hasse_weil_offsets (both overloads)"),
   ("genus from the degree", "src/curve.cc genus")],
  [], ["Curve::hasse_weil_offsets", "Curve::number_of_points", "Curve::genus"])

prop("C05", "The element table lists the field faithfully",
  "For every odd prime p and exponent r the element table of F_{p^r} lists every field element exactly once: entry i < q-1 is the i-th power of one fixed multiplicative generator (entry 0 is 1), and the entry at the zero index is 0. Reducing an index changes no element, and the coset representatives for n-th powers contain exactly one element of each coset of the n-th powers in the multiplicative group.",
  ["inputs", "configurations"], "all odd primes (with and without a tabulated Conway polynomial), all exponents, all indices and all n",
  "The tests only use the tables of F_5 and F_7.",
  ["src/fq_element_table.cc", "src/fq_element_table.hh"],
  [("generator search: powers are listed until 1 recurs", "src/fq_element_table.cc"),
   ("cosets by gcd(n, q-1)", "src/fq_element_table.cc power_coset_representatives")],
  [("fq_elements", "powers of the generator followed by zero", "src/fq_element_table.hh")], ["FqElementTable::at, at_nmod, reduce_index, power_coset_representatives"])

prop("C06", "Package iteration partitions the described set exactly",
  "For every combination of ranges, value sets and dependent value sets, stepping through single positions yields each described vector exactly once and then ends. With a package size, the blocks visited are pairwise disjoint, stay within the described ranges, their union is exactly the described set, none contains more vectors than the package size, and enumerating a block (from its bounds or through its enumerator) yields exactly the vectors within it.",
  ["inputs", "histories"], "all lengths, ranges, set contents, dependencies and package sizes, and stepping past the end",
  "The tests walk six hand-written small examples (and compare most of them with unsorted or partial expectations).",
  ["src/block_iterator.cc", "src/block_iterator.hh"],
  [("per-coordinate step sizes derived from the package size, largest ranges first", "src/block_iterator.cc initialize_blocks"),
   ("odometer stepping: dependent sets, then sets, then ranges", "src/block_iterator.cc step_")],
  [("position", "current indices/values", "src/block_iterator.hh")], ["BlockIterator::step, is_end, as_position, as_block, as_block_enumerator"])

prop("C07", "Enumeration with multiplicities covers every curve exactly once",
  "For every odd q, genus g and package size the enumeration together with the multiplicities represents all squarefree right hand sides of degree 2g+1 and 2g+2 (of degree 2g+1 only, with marked point) exactly once: within every orbit of right hand sides under x -> ax+b and scaling by nonzero constants, twice the sum of the multiplicities of the enumerated members is the size of the orbit. The enumerated blocks are pairwise disjoint, and consequently the total weight is the exact number of such polynomials.",
  ["inputs", "configurations"], "all (p, r, g, marked point, package size); all squarefree polynomials of the two degrees; p greater than, dividing, and not dividing the degree",
  "The only test of the enumeration does not compile; even when repaired it checks one total (q = 13, g = 2), which covers only the case p > degree and cannot see compensating errors.",
  ["src/curve_iterator.cc", "src/curve_iterator.hh", "src/block_iterator.cc"],
  [("normal forms by the three cases of p against the degree", "src/curve_iterator.cc CurveIterator"),
   ("multiplicity from the support of the polynomial", "src/curve_iterator.cc multiplicity")],
  [("enumerators", "list of boxes/sets of normal forms", "src/curve_iterator.hh")], ["CurveIterator::as_block", "CurveIterator::multiplicity"])

prop("C08", "The store accumulates every curve and its twist with exact weight",
  "After any sequence of registering curves in stores, flushing stores with the block they belong to, and flushing the shared results, the shared results are exactly: for each combination of ramification type and offsets, the sum over all registered curves of the curve's multiplicity for the curve itself and once more for its quadratic twist (offsets negated in the odd extensions), with exactly the flushed blocks on record. Every flush hands out each contribution exactly once, and the outcome does not depend on the order of registration nor on how curves are spread over stores. The weights and types that results consist of compare equal exactly if their values are, and types are totally ordered.",
  ["inputs", "histories"], "all finite histories of register / flush-to-shared / flush-shared operations over several stores, all squarefree curves (self-twisted ones included)",
  "The store is compiled but not exercised by any running test.",
  ["src/store/store.cc", "src/store/store.hh", "src/store/curve_data.cc", "src/store/curve_data.hh", "src/store/store_data.hh"],
  [("key and twisted key updated together", "src/store/store.cc register_curve"),
   ("mutex-protected static store and record", "src/store/store.cc flush_to_static_store, flush_static_store"),
   ("twist of the offsets", "src/store/curve_data.cc twist")],
  [("static_store / static_record", "process-wide results not yet written", "src/store/store.hh")], ["flush_static_store()", "insert(stream)"])

prop("C09", "Result texts are lossless and combine exactly",
  "Writing a store to text and reading it back reproduces it exactly, for every ramification type, every sign and number of offsets, and counts of any size (beyond 64 bit). Reading several texts into one store adds the counts of equal keys exactly, independently of the order of the texts and of lines; the text is canonical, one line per key in the documented form 'degrees;offsets:count', sorted, so equal results give identical text. The same holds for the lists of finished blocks: writing and reading gives back exactly the same set of blocks.",
  ["inputs", "histories"], "all stores and records (any keys, counts of arbitrary magnitude, any grouping and order of reads)",
  "No running test reads or writes a store or record.",
  ["src/store/store.cc", "src/store/curve_data.cc", "src/store/store_data.cc", "src/store/store_data.hh", "src/store/file_store.cc"],
  [("line format of keys and counts", "src/store/curve_data.cc operator<<, ValueType(string); src/store/store_data.hh operator<<"),
   ("strict order on keys", "src/store/curve_data.cc less"),
   ("arbitrary precision counters", "src/store/store_data.hh Count::ValueType"),
   ("block text format", "src/store/file_store.cc insert, extract")],
  [], ["Store::insert, Store::extract", "FileStore::insert, FileStore::extract"])

prop("C10", "A result folder remembers exactly what was saved into it",
  "For every history of opening a result folder and saving (record, results) pairs into it, a later opening reports a block as already computed exactly if some earlier save into this folder recorded it, and each saved pair is found in the folder unchanged, as a record file with a result file of the same stem. Earlier saves are never overwritten, unrelated files are neither read as records nor altered, folders do not influence each other, and a record whose block list was cut off never makes an unsaved block count as computed.",
  ["histories", "inputs"], "all histories of open/save/query operations over several folders, with unrelated, empty or cut-off files present",
  "No running test touches the file store.",
  ["src/store/file_store.cc", "src/store/file_store.hh"],
  [("records read at construction", "src/store/file_store.cc FileStore"),
   ("fresh file names", "src/store/file_store.cc new_filenames"),
   ("results written first, record second as a witness", "src/store/file_store.cc save")],
  [("initial_record", "blocks found in the folder when it was opened", "src/store/file_store.hh")], ["FileStore::contains", "files in the folder"])

prop("C11", "Complete runs reproduce the census of all curves",
  "For every valid configuration, running the threaded program and merging its result folder yields for every combination of ramification type and Hasse-Weil offsets the exact number of squarefree polynomials of degree 2g+1 and 2g+2 (2g+1 only, with marked point) over F_q having it. The merged text is byte for byte the same for every number of threads, every package size and every repetition of the run, and with several moduli in one configuration each result folder holds the census of its own entry only.",
  ["configurations", "inputs"], "all configurations (prime, exponent, genus, count exponent, marked point, package size, list of moduli) and numbers of threads, bounded by brute-force cost",
  "The pool tests do not compile; they would cover three configurations without files, extension base fields, marked points or several moduli.",
  ["src/executables/threaded.cc", "src/executables/merger.cc", "src/worker_pool/standalone.cc", "src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/curve_iterator.cc", "src/curve.cc", "src/store/store.cc"],
  [("enumerate blocks, count, register, flush, save, merge", "src/executables/threaded.cc, src/threaded/thread.cc"),
   ("results are saved and workers drained before the configuration changes", "src/worker_pool/standalone.cc update_config")],
  [], ["files written by hycu-threaded and hycu-merger"])

prop("C12", "Under every thread schedule the run ends and loses nothing",
  "For every interleaving of the worker threads with the coordinating thread, at any speed of each and with intermediate saves at any time, a threaded run terminates, computes every block exactly once and stores its contribution exactly once, together with the block's record, in the folder of its own configuration entry. No schedule leads to a deadlock, a crash, a lost or duplicated block, or unsynchronised access to shared data.",
  ["schedules"], "all interleavings at synchronisation operations, all placements of the timed save, numbers of threads and blocks",
  "Tests of the pool do not compile, and an ordinary run samples one schedule out of very many; lost wake-ups and premature completion need specific preemptions.",
  ["src/threaded/thread.cc", "src/threaded/thread.hh", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc", "src/store/store.cc"],
  [("condition variable hand-off of blocks to workers", "src/threaded/thread.cc main_thread, assign, shutdown"),
   ("results flushed before the block is reported finished", "src/threaded/thread.cc main_thread"),
   ("ready/idle/busy bookkeeping under one mutex", "src/threaded/thread_pool.cc"),
   ("record and results flushed under one mutex", "src/store/store.cc")],
  [("busy_threads, idle_threads, ready_threads, finished_blocks", "who works on what", "src/threaded/thread_pool.hh"),
   ("assigned_blocks", "blocks not yet reported back", "src/worker_pool/standalone.hh")], ["exit status and files of hycu-threaded under a controlled scheduler"])

prop("C13", "Interrupted or failing runs resume to the exact result",
  "If a threaded run is killed at any moment, or a write to its result folder fails or is cut short, then running the same configuration again on the same output path (any number of times, interrupted again or not, with any number of threads) and finally merging yields exactly the census of an uninterrupted run: nothing is lost and nothing is counted twice. Blocks recorded in the folder are not computed again.",
  ["crash_points", "fault_sequences", "histories"], "every kill point before, within and after each file operation of a run, failing and short writes, sequences of interruptions, intermediate saves at any time",
  "No test interrupts a run, injects a write error or reruns a configuration.",
  ["src/store/file_store.cc", "src/worker_pool/standalone.cc", "src/store/store.cc"],
  [("record written after the results, as a witness", "src/store/file_store.cc save"),
   ("recorded blocks are skipped", "src/worker_pool/standalone.cc assign"),
   ("results without record are ignored when merging", "src/executables/merger.cc")],
  [], ["result folder after kill, rerun and merge"])

prop("C14", "Configurations survive transport and documented forms are accepted",
  "Every configuration written as YAML and read back, or sent through serialisation, is reproduced exactly in every field. Configuration files in the documented forms are accepted with their documented meaning: entries listed under 'Moduli' or a single entry at top level, with or without a store type, with optional fields left out (no marked point, count exponent equal to the genus); fields may come in any order, and result paths are taken relative to the output path.",
  ["inputs", "configurations"], "all field values, all optional-field combinations, layouts and orders",
  "No running test reads a configuration.",
  ["src/config/config_node.cc", "src/config/config_node.hh", "src/executables/threaded.cc", "src/utils/serialization_tuple.hh"],
  [("YAML encode/decode with defaults", "src/config/config_node.cc"),
   ("boost serialisation of configurations and tuples", "src/config/config_node.hh, src/utils/serialization_tuple.hh")],
  [], ["YAML::convert<ConfigNode>", "boost archives", "hycu-threaded on a written configuration file"])

prop("C15", "The single-curve program reports the truth about the given curve",
  "For every odd prime p and every list of integer coefficients (constant term first) whose reduction modulo p is a squarefree polynomial of degree at least 3, the program prints that polynomial over F_p, and the correct numbers of unramified and ramified points over F_p, ..., F_{p^g}, Hasse-Weil offsets and ramification type. Coefficients stand for their residues modulo p, trailing zeros do not matter, and the printed report is the same for every implementation that can be selected.",
  ["inputs"], "all odd primes (small, and beyond 2^16), all coefficient lists (values at least p included), all implementations",
  "The tests call the underlying function on two coefficient lists; they never run the program, use coefficients at least p, or primes above 7.",
  ["src/executables/single.cc", "src/single_curve_fp.cc", "src/curve.cc"],
  [("coefficients to exponents through a table of generator powers", "src/single_curve_fp.cc"),
   ("report", "src/executables/single.cc")],
  [], ["standard output of hycu-single"])

prop("C16", "Distributed runs give the same census as threaded runs",
  "For every configuration, number of MPI processes and number of threads per process, the MPI program terminates and its result folders merge to exactly the census the threaded program yields, with every block recorded exactly once. Folders partly filled by an earlier (threaded or MPI) run are completed without recomputing recorded blocks, and intermediate saves at any time change nothing.",
  ["configurations", "schedules", "histories"], "all configurations, process and thread counts, prior folder contents and save times",
  "The MPI program is built but never run by the tests.",
  ["src/executables/mpi.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/utils/serialization_tuple.hh", "src/config/config_node.hh"],
  [("idle queues per process, blocks sent to workers, results collected at save", "src/worker_pool/mpi.cc"),
   ("worker message loop", "src/worker_pool/mpi_worker.cc")],
  [("assigned_blocks", "blocks per process not yet reported back", "src/worker_pool/mpi.hh")], ["files written by hycu-mpi"])

prop("C17", "The merger adds up exactly the witnessed results",
  "For every folder of record and result files the merger writes the union of all recorded blocks and the exact sum of the results of those files that have a record, ignoring results without record and unrelated files and leaving the input files unchanged. If a record lacks its results, it fails and writes no merged result; if the merged files cannot be written completely, it fails. Merging merged parts gives the same result and record files as merging everything at once.",
  ["inputs", "histories"], "all folders (any number of pairs, overlapping keys, counts of any size, orphans, unrelated files), all groupings into partial merges",
  "The merger is built but never run by the tests.",
  ["src/executables/merger.cc", "src/store/file_store.cc", "src/store/store.cc"],
  [("pairs are found by extension and stem", "src/executables/merger.cc merge"),
   ("sets of blocks and sums of counts", "src/store/file_store.cc extract, src/store/store.cc extract")],
  [], ["files written by hycu-merger"])

prop("C18", "Impossible requests are refused instead of answered",
  "Requests outside the implemented domain end with a failure (nonzero exit or abnormal termination) and produce no count and no result file (for the refused entry, in configurations with several): counting a curve with tables of another prime or over a field that is no extension of its base field, enumerating over characteristic 2 or with genus 0, iterating over an empty range, a field size that is not prime, fewer than two coefficients, more than one implementation, missing or unreadable input paths, unknown store types, and configurations lacking a required field, with a zero in a field that must be positive, with a value that is not of the kind of its field, or whose result folder cannot be created.",
  ["inputs", "configurations"], "all requests of the listed kinds",
  "The tests contain no negative case.",
  ["src/curve.cc", "src/curve_iterator.cc", "src/block_iterator.cc", "src/executables/single.cc", "src/executables/threaded.cc", "src/executables/merger.cc", "src/config/config_node.hh", "src/config/config_node.cc"],
  [("guards that report and terminate", "src/curve.cc, src/curve_iterator.cc, src/block_iterator.cc"),
   ("argument checks", "src/executables/*.cc"), ("verification of configuration entries", "src/config/config_node.hh verify")],
  [], ["exit status and produced files"])

prop("C19", "The accelerator kernels compute what the processor computes",
  "For every field and coefficient vector the evaluation kernel marks each nonzero x with exactly the unramified and ramified points the definition assigns to it, and the reduction kernel's partial sums add up to the sum of its input for every length and group shape with power-of-two group size. Summed up, the kernels give the same counts as the processor implementation.",
  ["inputs", "configurations"], "all fields, coefficient vectors and degrees; all input lengths, numbers and power-of-two sizes of work groups",
  "OpenCL support is off by default and there is no device here, so no test ever runs the kernels.",
  ["src/opencl/evaluation.cl", "src/opencl/reduction.cl"],
  [("same table-based evaluation as on the processor", "src/opencl/evaluation.cl"),
   ("tree reduction per work group", "src/opencl/reduction.cl")],
  [], ["buffers written by the kernels"])

prop("C20", "Counting through OpenCL gives the processor's results",
  "Built with OpenCL, every sequence of counts with tables that use a device (made either way from an interface, sharing it, given up before or after use, in any order of curves, degrees and fields) reports the same numbers as without device, at whatever moment the device executes the commands queued for it; if a call to the driver fails, no wrong number is reported. Every graphics device and accelerator is found exactly once, although several platforms of a vendor may offer it. Runs of the threaded and the MPI program with any number of devices, threads per device and threads without device end, compute each block once and yield the census of a run without devices, and the single-curve program prints the same report with and without --opencl.",
  ["inputs", "histories", "schedules", "configurations"], "all sequences of counts, tables and interfaces; all lists of platforms and devices, all moments of execution of queued commands, all single failing calls; all numbers of devices and threads, all schedules",
  "OpenCL support is off by default and there is no device here, so no test ever runs any of this code.",
  ["src/opencl/interface.cc", "src/opencl/buffer_evaluation.cc", "src/opencl/kernel_evaluation.cc", "src/opencl/kernel_reduction.cc", "src/opencl/program.cc", "src/reduction_table.hh", "src/curve.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc"],
  [("program and kernel per degree", "src/opencl/interface.hh program_evaluation, src/reduction_table.hh kernel_evaluation"),
   ("in-order queue, blocking read at the end", "src/opencl/kernel_evaluation.cc, src/opencl/kernel_reduction.cc"),
   ("separate idle queues for threads with and without device", "src/threaded/thread_pool.cc, src/worker_pool/mpi.cc")],
  [], ["Curve::number_of_points()", "OpenCLInterface::devices()", "result folders", "output of hycu-single"])

prop("C21", "Repeating work leaves no memory, files or threads behind",
  "Computing on goes on for days, over millions of curves and blocks: the memory in use, the number of open files and the number of threads stay bounded however often work is repeated. Counting and classifying curves (by each implementation), making tables, listing curves and blocks, reading configurations, reading and writing results and records, opening and saving into result folders, giving a pool another configuration, and running a pool from its start to its end, each repeated on the same input, leave no more behind after many repetitions than after few.",
  ["inputs", "histories"], "all operations on all inputs, all numbers of repetitions",
  "Tests do each thing once and look at its result; what is left behind is not part of any result.",
  ["src/curve.cc", "src/fq_element_table.cc", "src/reduction_table.cc", "src/single_curve_fp.cc", "src/curve_iterator.cc", "src/store/store.hh", "src/store/file_store.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc"],
  [("FLINT objects are cleared", "src/curve.cc has_squarefree_rhs, count_naive_nmod, count_naive_zech, ramification_type; src/fq_element_table.cc"),
   ("shared results are emptied when taken out", "src/store/store.hh flush_static_store"),
   ("threads are joined", "src/threaded/thread.cc shutdown")],
  [], ["live allocations", "/proc/self/fd", "/proc/self/task"])

prop("C22", "Results are saved at least every five minutes",
  "While blocks are handed out, what has been computed is saved at least every five minutes, so that an interrupted run loses no more than that: when a block is handed out more than five minutes (by the calendar clock) after the last save, everything finished until then, by all threads of all processes, is written to the result folder first, again and again as long as the run lasts and for each configuration. Going on to another configuration saves everything of the last one first. Holds for the pool of a single process and for the one distributed over MPI.",
  ["histories", "time"], "all sequences of blocks, configurations and times at which blocks are handed out; all numbers of threads and processes",
  "Tests end within seconds, before any periodic save is due.",
  ["src/worker_pool/standalone.cc", "src/worker_pool/standalone.hh", "src/worker_pool/mpi.cc", "src/worker_pool/mpi.hh", "src/worker_pool/mpi_worker.cc", "src/store/file_store.cc"],
  [("time of the next save", "src/worker_pool/standalone.cc save_global_stores_to_file, src/worker_pool/mpi.cc save_global_stores_to_file"),
   ("checked whenever a block is assigned", "delayed_save_global_stores_to_file")],
  [], ["record and result files, by the time of the clock"])

prop("C23", "All threads of all processes share the work",
  "With -n N, N threads compute in hycu-threaded, and N in each process of hycu-mpi (without -n: as many as there are cores), no more and no fewer: as long as the current configuration has blocks which are neither recorded, finished nor being computed, no thread stays idle, however long any of the other threads takes for its block, also if a part of the blocks is on record already. Afterwards every block is on record.",
  ["schedules", "configurations", "histories"], "all configurations, numbers of processes and threads, all relative speeds of threads",
  "Results do not depend on which thread computes what, so tests do not notice threads that are never given work or wait for each other.",
  ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/threaded/thread_pool.cc", "src/threaded/thread.cc", "src/executables/threaded.cc", "src/executables/mpi.cc"],
  [("ready threads are collected and made idle", "src/threaded/thread_pool.cc flush_ready_threads"),
   ("a block for each idle thread of each process", "src/worker_pool/standalone.cc assign, src/worker_pool/mpi.cc assign, fill_idle_queues")],
  [], ["number of threads at work at the same time", "records"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
