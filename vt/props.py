"""What decides each property."""
LIB = ['trusted contracts of the standard library and of machine integers in contracts/common.rs (values are copied, so aliasing is not modelled)']
PROPS = {
 'C06': dict(skip=r'as_block|package|steps|box|ranges|single|nomore',vc=['block_iterator.vc'], driver='block_iterator.cc', sources=['block_iterator.cc'], lits=['block_iterator.cc', 'block_iterator.hh'], level='proof',
   assumptions=['lengths and set sizes below 2^32 - 1, range ends at most 2^31', 'indices that are neither range nor set nor dependent set stay 0 (the constructor documents them as undefined)']),
 'C07': dict(vc=['block_iterator.vc'], driver='block_iterator.cc', sources=['block_iterator.cc'], lits=['block_iterator.cc', 'block_iterator.hh'], level='proof',
   assumptions=['lengths and set sizes below 2^32 - 1, range ends at most 2^31']),
}
CI = ['curve_iterator.cc', 'block_iterator.cc', 'fq_element_table.cc']
PROPS.update({
 'C08': dict(vc=['curve_iter.vc', 'tables.vc'], skip=r'reductions|increments|tables\b|rt_ctor|elements|coeff0|elt_|lemma_lg|lemma_succ', driver='curve_iterator.cc', sources=CI, lits=['curve_iterator.cc'], level='proof', opt='-O2', budget=20,
   assumptions=['odd fields of 3 .. 2^30 - 1 elements, genus 1 .. 2^30 - 17, positive package size', 'what block iterators do is taken from the contracts proved by C06 and C07, the multiplicities from the contract proved by C09', 'proved: the enumerated polynomials are exactly the normal forms (each once), the multiplicities of the normal forms of a degree add up to half of (q-1)q^d; that a normal form stands for as many polynomials as its multiplicity says (the orbit argument) is not proved, small fields are checked by computation']),
 'C09': dict(vc=['multiplicity.vc'], driver='curve_iterator.cc', sources=CI, lits=['curve_iterator.cc'], level='proof', opt='-O2',
   assumptions=['coefficient supports are strictly increasing, degrees 3 .. 2^31-2, odd field size']),
})

CUA = ['fields of at most 2^30 - 1 elements, extension degrees at most 64', 'coefficient logarithms are in range and the leading coefficient is not zero (what the constructor and the enumeration establish)']
ST = ['store/store.cc', 'store/curve_data.cc', 'store/store_data.cc', 'store/file_store.cc', 'config/config_node.cc', 'curve.cc', 'curve_iterator.cc', 'block_iterator.cc', 'fq_element_table.cc', 'reduction_table.cc']
STD = dict(driver='store.cc', sources=ST, lits=['store/store.cc', 'store/curve_data.cc', 'store/file_store.cc', 'store/store_data.cc', 'store/store_data.hh', 'executables/merger.cc'], driver_flags=['-fno-access-control'], repo_flags=['-include', 'store_random.hh'], ldflags=['-lboost_program_options'])
PROPS.update({
 'C10': dict(STD, vc=['store.vc'], skip=r'flush', level='proof', assumptions=CUA + ['the field size is odd, degrees 3 .. 2^20', 'what C05 assumes about factors and counted zeros', 'FLINT integers are unbounded']),
 'C11': dict(STD, vc=['store.vc', 'text.vc', 'merger.vc'], skip=r'register|twist|less|put_count|_key', level='proof', assumptions=['a mutex excludes other threads; each operation on the shared results takes it once (proved), so the sequential contract describes it', 'FLINT integers are unbounded', 'the files that are merged were written by saves and can be read']),
 'C12': dict(STD, vc=['text.vc'], level='proof', assumptions=['ramification degrees below 2^31', 'results are read from text that lists keys of curves: at least one ramification point and one offset']),
 'C13': dict(STD, vc=['records.vc'], level='proof', assumptions=['range ends below 2^31', 'the directory does not change while it is read', 'record files hold what a save has written']),
 'C14': dict(STD, vc=['save.vc', 'merger.vc'], level='proof', assumptions=['a file whose stream was written, closed and is in a good state is complete (no loss of written data in the operating system)', 'renaming is atomic', 'names drawn by concurrent processes differ', 'the output files of a merge do not exist before']),
})

CU = ['curve.cc', 'curve_iterator.cc', 'block_iterator.cc', 'fq_element_table.cc', 'reduction_table.cc', 'single_curve_fp.cc']
CUD = dict(driver='curve.cc', sources=CU, lits=['curve.cc', 'reduction_table.cc', 'fq_element_table.cc', 'single_curve_fp.cc'], driver_flags=['-fno-access-control'], opt='-O2', ldflags=['-lboost_program_options'])
PROPS.update({
 'C01': dict(CUD, vc=['curve.vc'], skip=r'rhs_support|points_list|max_prime|offsets', level='proof', assumptions=CUA + ['that a coefficient and its image in the extension are the same field element assumes compatible generators (each run checks by computation that all odd fields of at most 2^30 - 1 elements have them)']),
 'C02': dict(CUD, vc=['tables.vc'], level='proof', assumptions=['fields of at most 2^30 - 1 and at least 3 elements, extension degrees at most 64', 'FLINT: multiplication modulo the polynomial it chooses makes F_p^d a field (fq_axiom; addition digit by digit is proved to be a group), the drawn elements are a function of the number of draws', 'the search for a generator is proved to find one if it ends; that it ends is not proved', 'floating point powers below 2^53 are exact']),
 'C03': dict(CUD, vc=['naive.vc'], level='proof', assumptions=CUA + ['odd characteristic', 'FLINT: the Conway polynomial of every field that is counted over is tabulated and its generator primitive (each run checks this by computation for all odd fields of at most 2^30 - 1 elements that are not prime fields with more than 2^15 elements); FLINT Zech arithmetic is the arithmetic of that field']),
 'C04': dict(CUD, vc=['curve.vc'], skip=r'count|convert|rhs_support', level='proof', assumptions=CUA),
 'C05': dict(CUD, vc=['ramification.vc'], level='proof', assumptions=CUA + ['degrees at most 2^20', 'FLINT factors polynomials into irreducible factors whose degrees, with multiplicity, add up to the degree', 'a counted number of zeros over the extension of degree k is the number of zeros that the irreducible factors of degree dividing k have there (C01 and the theory of finite fields)']),
 'C19': dict(CUD, vc=['single.vc', 'single_main.vc'], level='proof', assumptions=['odd primes, fields up to the degree of the genus of at most 2^30 - 1 elements', 'what C02 and C03 assume about FLINT', 'that the counted coefficients are the typed integers over extensions assumes compatible generators (each run checks by computation that all odd fields of at most 2^30 - 1 elements have them)', 'that the program says of an option what was typed for it (boost::program_options) is assumed and executed', 'the ramification type and the text of the curve that main prints are decided by C05 and by execution; here they are left open']),
})
CFG = dict(driver='config.cc', sources=['config/config_node.cc'], lits=['config/config_node.cc', 'config/config_node.hh', 'utils/serialization_tuple.hh'])
PROPS.update({
 'C17': dict(CFG, vc=['config.vc'], level='proof', assumptions=['a path is its text']),
 'C18': dict(CFG, vc=['serialize.vc'], level='proof', assumptions=['a path is its text', 'boost transmits the elements of a vector in order, and parts of the archive types unchanged']),
})
SIMF = ['-fno-access-control', '-include', 'sim.hh']
WORK = ['curve.cc', 'curve_iterator.cc', 'block_iterator.cc', 'fq_element_table.cc', 'reduction_table.cc', 'store/store.cc', 'store/curve_data.cc', 'store/store_data.cc', 'store/file_store.cc', 'config/config_node.cc']
PROPS.update({
 'C15': dict(driver='thread.cc', sources=['threaded/thread.cc'] + WORK, lits=['threaded/thread.cc', 'threaded/thread.hh'], cflags=SIMF, driver_flags=[], repo_flags=[], inc=['drivers/fakepool'], opt='-O1', ldflags=['-lboost_program_options'], vc=['thread.vc'], level='proof', assumptions=[
   'a mutex excludes other threads; while the worker does not hold it others only append blocks and ask for the end (proved for assign and shutdown), and the worker only takes blocks from the front',
   'a condition variable wakes the worker after a notification that follows the change it announces; when the worker is scheduled is up to the system (termination is not proved)',
   'blocks are non-empty products of ranges with ends at most 2^31', 'a pool joins its threads before it goes', 'curves, tables and stores do what C01 to C05 and C10 say']),
})
PROPS.update({
 'C16': dict(driver='pools.cc', sources=['threaded/thread.cc', 'threaded/thread_pool.cc', 'worker_pool/standalone.cc', 'worker_pool/mpi.cc', 'worker_pool/mpi_worker.cc'] + WORK, lits=['threaded/thread_pool.cc', 'worker_pool/standalone.cc', 'worker_pool/mpi.cc'], cflags=SIMF, driver_flags=[], repo_flags=[], inc=['drivers/fakempi'], opt='-O1', ldflags=['-lboost_program_options'], vc=['pools.vc', 'mpi.vc', 'mpi_worker.vc'], level='proof', assumptions=[
   'a mutex excludes other threads; between two steps of a thread that holds no mutex the working threads do what finished_block does to blocks that they work on, and nothing else',
   'a block is not assigned again while it is outstanding', 'a process receives what the other end has sent, in order (the messages of master and workers are matched by ghost state of the communicator; boost::mpi is trusted)',
   'at least one hardware thread', 'the loops which wait for other threads or processes are proved to leave correct states, not to end', 'what a save writes is C13 and C14; what a thread does with a block is C15']),
})
PROPS.update({
 'C22': dict(driver='runs.cc', sources=['curve_iterator.cc', 'block_iterator.cc', 'fq_element_table.cc', 'reduction_table.cc', 'curve.cc', 'store/store.cc', 'store/curve_data.cc', 'store/store_data.cc', 'store/file_store.cc', 'config/config_node.cc'], lits=['executables/threaded.cc', 'executables/mpi.cc', 'config/config_node.hh'], inc=['drivers/fakeruns'], opt='-O1', ldflags=['-lboost_program_options'], vc=['main.vc', 'mpi_main.vc'], level='proof', assumptions=[
   'what the command line says (boost::program_options), what a file holds (yaml-cpp) and what paths mean (boost::filesystem) is as documented; the command lines of the harness are executed',
   'odd fields of 3 .. 2^30 - 1 elements, genus 1 .. 2^30 - 17', 'what enumerators do is taken from the contracts proved by C06 to C08, what a configuration file means from those proved by C17', 'what a pool does with the blocks and what a worker process does is C15 and C16']),
})
RACES = dict(driver='races.cc', sources=['threaded/thread.cc', 'threaded/thread_pool.cc', 'worker_pool/standalone.cc'] + WORK, cflags=[], driver_flags=[], repo_flags=[], inc=[], san=['-fsanitize=thread'], opt='-O1', procs=2, ldflags=[])
for k in ('C10', 'C15', 'C16'): PROPS[k]['also'] = [RACES]
