#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a program only so that the text stays readable)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook)))

p("C01", "Table-driven point counts are exact over every extension field",
  "For every hyperelliptic curve y^2 = f(x) over a field of odd order and every extension field whose degree is a multiple of the base degree, counting with that extension's tables reports exactly two numbers: the number of x on the projective line with f(x) = 0 (infinity counts when deg f is odd), and twice the number of x with f(x) a non-zero square (infinity counts when deg f is even and the leading coefficient is a square). Counting again over the same field changes nothing, and counting over one field never changes what was reported for another.",
  ["inputs"], "all odd prime powers q, all non-zero f over F_q, all extension degrees, all orders of repeated counting",
  "the tests count two fixed curves over F_5, F_25, F_7 and F_49; the zero, square, cancellation and infinity cases have to be right for every field and every coefficient vector",
  ["src/curve.cc", "src/curve.hh", "src/reduction_table.hh"],
  [("evaluation of f in discrete logarithms, infinity and zero handling", "Curve::count, Curve::count_cpu"), ("embedding of the coefficient field in the extension", "Curve::convert_poly_coeff_exponents"), ("trimming of leading zeros", "Curve::Curve")],
  [("nmb_points", "per exponent: (points over non-branch x, points over branch x)", "src/curve.hh")], ["Curve::number_of_points", "hycu-single output"])
p("C02", "Field tables represent the field faithfully",
  "For every field order, the element table lists every field element exactly once, the entry at index i being the i-th power of one generator and zero coming last; the exponent table reduces every sum of two exponents modulo q-1; and the successor table maps the logarithm of x to the logarithm of x+1, with the reserved index q-1 standing for zero on both sides. The representatives listed for n-th power cosets of the multiplicative group meet every coset exactly once.",
  ["inputs"], "all prime powers q for which a table can be built, all table positions, all n",
  "tests build these tables for q = 5, 25, 7, 49 only and never read them directly; a wrong entry is visible only for curves whose evaluation happens to pass through it",
  ["src/fq_element_table.cc", "src/fq_element_table.hh", "src/reduction_table.cc"],
  [("powers of a generator, search for a generator", "FqElementTable::FqElementTable"), ("doubled residue table", "ReductionTable::compute_exponent_reduction_table"), ("Zech logarithms by base-p digit arithmetic", "ReductionTable::compute_incrementation_table"), ("coset representatives", "FqElementTable::power_coset_representatives")])
p("C03", "Reference counting methods are exact as well",
  "The two reference methods (plain finite-field arithmetic and Zech-logarithm arithmetic) report, for every curve and every admissible extension degree, the same pair of numbers that the definition of the curve prescribes, so that all counting methods agree; a degree that was already counted is left unchanged.",
  ["inputs"], "all odd prime powers, all f, all extension degrees",
  "each method is run on two curves; agreement has to hold for all of them",
  ["src/curve.cc"], [("field-element evaluation and square detection", "Curve::count_naive_nmod, Curve::count_naive_zech")])
p("C04", "Reported point lists and Hasse-Weil offsets are exact",
  "For every curve and every set of counted fields, the Hasse-Weil offset reported for a field with Q elements is Q + 1 minus the total number of points counted over it, the lists of points and offsets are ordered by increasing extension degree starting with the curve's own field and contain every degree up to the requested one, and the largest usable degree is the end of the gap-free run of counted degrees.",
  ["inputs", "histories"], "all counts, all sets of counted degrees, all base degrees",
  "tests look at offsets of two curves over prime fields; base degrees above one and gaps are never exercised",
  ["src/curve.cc", "src/curve.hh"], [("offset arithmetic and list order", "Curve::hasse_weil_offsets, Curve::number_of_points, Curve::max_prime_exponent")])
p("C05", "Ramification type is the factorisation pattern of the branch locus",
  "For every squarefree right hand side the ramification type is the non-decreasing list of degrees of its irreducible factors, with one further 1 for the point at infinity when the degree is odd, so that it always sums to 2g+2; it does not depend on how many extension fields have been counted before.",
  ["inputs", "histories"], "all squarefree f over all odd fields, all gap-free prefixes of counted degrees",
  "no test asks for a ramification type on its own (only a suite that does not compile compares stored ones); the shortcut from point counts and the factorisation path must agree for every prefix",
  ["src/curve.cc"], [("degrees from successive branch-point counts, fallback to factorisation", "Curve::ramification_type")])
p("C06", "Block enumeration visits every combination exactly once",
  "An enumeration over a product of ranges, finite sets and dependent sets starts at a valid combination, visits every combination of the product exactly once, never anything else, and then reports its end, after which it stays there.",
  ["inputs", "histories"], "all lengths, range bounds, sets, dependent sets and step counts",
  "six tests enumerate small fixed products; wrap-around order, coupling of dependent sets and termination must hold for every shape",
  ["src/block_iterator.cc", "src/block_iterator.hh"], [("mixed-radix stepping with carry", "BlockIterator::step, BlockIterator::step_"), ("initial position", "BlockIterator::set_initial_position, initialize_blocks"), ("translation of digits to values", "BlockIterator::as_position")])
p("C07", "Work packages tile the search space",
  "For every package size the packages produced by an enumeration are disjoint boxes inside the declared bounds whose union is the whole space; every package holds at least one and at most the requested number of combinations, and enumerating a package visits exactly the combinations of its box.",
  ["inputs", "histories"], "all block shapes, all package sizes, all positions of the enumeration",
  "tests use package size 4 on one shape; clipping at the upper bound and the split of the package size over several blocks depend on all sizes at once",
  ["src/block_iterator.cc"], [("step sizes by decreasing block length", "BlockIterator::initialize_blocks"), ("box with clipping at the end", "BlockIterator::as_block, as_block_enumerator")])
p("C08", "Curve enumeration covers every curve with the right total weight",
  "For every odd field, genus and choice of marked point, the enumerated right hand sides are pairwise distinct polynomials of degree 2g+1 (and 2g+2 unless a marked point is required) in normal form, and every polynomial of these degrees is obtained from enumerated ones by the admissible substitutions, counted with the multiplicity attached to them: the multiplicities of the enumerated polynomials of one degree d, taken twice for the quadratic twist, add up to (q-1)q^d.",
  ["inputs", "configurations"], "all odd prime powers q, all g >= 1, with and without marked point, all package sizes, including characteristics dividing the degree",
  "the only test of the curve enumerator (q = 13, g = 2) does not compile at this commit; small characteristics take branches that no test ever runs",
  ["src/curve_iterator.cc", "src/curve_iterator.hh"], [("case distinction on the characteristic, normal forms", "CurveIterator::CurveIterator"), ("step through the sub-enumerations", "CurveIterator::step, is_end")])
p("C09", "Multiplicity of a normal form is the exact size of its class",
  "For every prime power and every set of exponents with non-zero coefficients, the multiplicity computed for a normal form is exactly the number of polynomials represented by it divided by two for the twist (the affine substitutions and square scalings modulo those that fix the normal form); it is a positive integer, exact for fields of any size and independent of lower coefficients that do not enter the normal form.",
  ["inputs"], "all odd prime powers below 2^32, all degrees, all supports",
  "never called by a test that compiles; five cases by characteristic and support, with integer divisions that must be exact",
  ["src/curve_iterator.cc"], [("orbit sizes", "CurveIterator::multiplicity")])
p("C10", "Registering a curve accounts for it and for its quadratic twist",
  "Registering a curve adds its multiplicity to the entry of its invariants and the same multiplicity to the entry of its quadratic twist (the same ramification type, offsets negated in odd degree); when curve and twist have equal invariants the one entry grows by twice the multiplicity. No other entry changes, in every order of registrations.",
  ["inputs", "histories"], "all sequences of registered curves, all keys, self-twist and non-self-twist keys",
  "no compiling test touches the store",
  ["src/store/store.cc", "src/store/curve_data.cc", "src/store/curve_data.hh", "src/store/store_data.hh"], [("two-sided update", "Store::register_curve"), ("twist of invariants", "ExplicitRamificationHasseWeil::twist"), ("order on keys", "less<ValueType>")])
p("C11", "Aggregation is exact addition, however the work is split",
  "Flushing worker results, reading several result files and merging them gives for every key the exact sum of all contributions, whatever the number of workers, files and their order and however large the counts grow; the result handed out for saving holds exactly the contributions of the blocks handed out with it, and handing it out empties both together.",
  ["inputs", "histories", "schedules"], "all sequences of flushes, saves and reads, all interleavings of whole store operations, counts of any size",
  "no compiling test aggregates anything; overflow and aliasing of large counters need counts above 2^62",
  ["src/store/store.cc", "src/store/store_data.hh", "src/executables/merger.cc"], [("keyed addition under a lock", "Store::flush_to_static_store, flush_static_store, extract"), ("big-integer value semantics", "Count::ValueType")])
p("C12", "Result lines can be read back unchanged",
  "Every key with at least one ramification degree and one offset, and every count, is written as one line 'r1,...,rm;o1,...,on:count' with decimal numbers; reading the written lines back gives the same keys and counts, for all numbers, signs and list lengths.",
  ["inputs"], "all keys and counts, all list lengths, negative offsets, counts of any size",
  "no test writes or reads a result file",
  ["src/store/curve_data.cc", "src/store/store.cc", "src/store/store_data.hh", "src/store/store_data.cc"], [("printer and parser of keys", "operator<<, ValueType(string)"), ("printer and parser of counts", "Count::ValueType"), ("line format", "Store::insert, Store::extract")])
p("C13", "Work records are read back exactly, so finished work is recognised",
  "The set of blocks read back from written records is exactly the set of blocks that was written, and a block counts as already done exactly when some record file of the result directory contains it; hence on a restart finished blocks are skipped and no other block is.",
  ["inputs", "histories"], "all sets of blocks, all numbers of record files, foreign files in the directory",
  "no test writes or reads a record",
  ["src/store/file_store.cc", "src/store/file_store.hh"], [("record printer and parser", "FileStore::insert, FileStore::extract"), ("initial scan and lookup", "FileStore::FileStore, FileStore::contains")])
p("C14", "A record file is a witness of a completely written result file",
  "At every instant, including after a crash or a failed write at any point, a record file present in the result directory, whether written by a run or by merging the files of several runs, is complete and has a completely written result file of the same name holding the results of its blocks; existing files are never overwritten by a save.",
  ["crash_points", "fault_sequences"], "all crash points between and inside the writes of a save, all failing writes, all sequences of saves",
  "no test saves a file, and none can interrupt a save",
  ["src/store/file_store.cc", "src/executables/merger.cc"], [("result first, record as witness", "FileStore::save, merge"), ("fresh names", "FileStore::new_filenames")])
p("C15", "A worker finishes every assigned block, and stores before reporting",
  "A worker thread processes exactly the blocks assigned to it, each once and in order: every combination of the block whose right hand side is squarefree is counted over all configured fields with the tables that were configured when the block was assigned and registered once, the results are handed to the shared store together with the block before the block is reported finished, and no assignment or shutdown request can leave the worker asleep.",
  ["schedules", "histories"], "all interleavings of one worker with assigning, configuring and shutting down, all blocks",
  "the threaded tests do not compile; a lost wake-up or an early report shows only under particular schedules",
  ["src/threaded/thread.cc", "src/threaded/thread.hh"], [("worker loop", "Thread::main_thread"), ("hand-over of work", "Thread::assign, Thread::update_config, Thread::shutdown")])
p("C16", "The worker pools neither lose nor duplicate work",
  "Every block given to a worker pool that is not already recorded is handed to exactly one idle worker of the requested kind, is reported finished exactly once, and makes exactly one worker available again; a pool waits until every handed-out block is finished and saves all results before it switches to another configuration or shuts down, and results are always saved to the directory of the configuration they were computed for.",
  ["histories", "schedules"], "all sequences of assignments, completions, saves and configuration changes, all numbers of workers",
  "the threaded tests do not compile; none of this is exercised",
  ["src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc"], [("idle, ready, busy book-keeping", "ThreadPool::assign, finished_block, flush_ready_threads, flush_finished_blocks"), ("assigned set, save and wait protocol", "StandaloneWorkerPool::*")])
p("C17", "Configuration files mean what they say",
  "Every field of a configuration node is taken from the entry of its name, an omitted count exponent defaults to the genus and an omitted marked-point flag to false, a node lacking another field is refused, and a node with any zero parameter is rejected as invalid; writing a node and reading it back gives the same node.",
  ["inputs", "configurations"], "all configuration nodes",
  "no test reads a configuration",
  ["src/config/config_node.cc", "src/config/config_node.hh"], [("decoding, encoding, validation", "convert<ConfigNode>::decode, encode, ConfigNode::verify")])
p("C18", "Nodes, blocks and results travel between processes unchanged",
  "Sending a configuration node, a block or a pair of result texts to another process delivers an equal value there: what the receiving side reconstructs from the transmitted sequence of parts is what the sender put in, for every value.",
  ["inputs"], "all configuration nodes, blocks and record/result pairs",
  "no test runs the MPI version",
  ["src/config/config_node.hh", "src/utils/serialization_tuple.hh"], [("field-by-field archives", "boost::serialization::serialize(ConfigNode), Serializer<N>")])
p("C19", "Single-curve computation uses the curve the user typed",
  "For every odd prime p and every list of non-negative integer coefficients that do not all vanish modulo p, the single-curve computation works with the polynomial over F_p whose coefficients are the given integers modulo p, counts it over all extensions of degree 1 up to the genus with the selected method, and reports results for that curve.",
  ["inputs"], "all odd primes, all coefficient lists whose reduction is not constant",
  "two coefficient lists with reduced coefficients are tested; the README example already uses an unreduced coefficient",
  ["src/single_curve_fp.cc"], [("conversion of integers to discrete logarithms", "single_curve_fp")])
p("C20", "The distributed run protocol terminates without deadlock",
  "For every number of processes and every order of message delivery, a distributed run sends each block to one process, collects every result and terminates.",
  ["schedules", "fault_sequences"], "all process counts and message orders",
  "no test runs the MPI version",
  ["src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc"], [("master/worker message protocol", "MPIWorkerPool, main_mpi_worker")])
p("C21", "OpenCL counting agrees with CPU counting",
  "For every curve and field, counting on an OpenCL device gives the same numbers as counting on the CPU.",
  ["inputs", "configurations"], "all curves, fields and devices",
  "the OpenCL build is off and does not compile here",
  ["src/opencl/evaluation.cl", "src/opencl/reduction.cl", "src/opencl/kernel_reduction.cc"], [("evaluation and reduction kernels", "src/opencl")])
p("C22", "A run works off every configured family",
  "A run of the threaded or the MPI program goes through the families of its configuration file (the entries of Moduli in order, or the file itself), prepared by their own parameters and with their results placed below the canonical output path, and under each it assigns non-empty blocks within the field's index range that contain every polynomial in normal form of the family's degrees (2g+1, and 2g+2 unless a marked point is asked for) exactly once and nothing else. It never works off an invalid family, reports success (unless asked for help) only if all families were worked off, and does report success if the command line, the file and all families are valid. An MPI process of rank other than 0 acts as worker and assigns nothing.",
  ["inputs", "configurations"], "all command lines, configuration files and output paths, all lists of families over odd fields",
  "no test runs a program",
  ["src/executables/threaded.cc", "src/executables/mpi.cc", "src/config/config_node.hh", "src/curve_iterator.cc"], [("reading the command line and the configuration, loop over families and blocks", "main (threaded.cc, mpi.cc)"), ("placement of results", "ConfigNode::prepend_output_path")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
