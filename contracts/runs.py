import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
P = 'boost::filesystem::path'; N = 'YAML::Node'
W = ['StandaloneWorkerPool', 'MPIWorkerPool']
def v(fg, e): return fg.hoist(fg.val(e))
RUN = X.Path('run', (), None)
def child(fg, e):
    if fg.g.rt(X.unq(e['args'][1]['t'])) in ('u64', 'u32', 'i32', 'i64'): return 'node_at(%s, (%s) as u64)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
    return 'node_sub(%s, %s)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
import importlib.util
_s = importlib.util.spec_from_file_location('opts_config_base', os.path.join(os.path.dirname(os.path.realpath(__file__)), 'config.py'))
C = importlib.util.module_from_spec(_s); _s.loader.exec_module(C)
def as_(fg, e):
    if fg.g.rt(e['t']) == 'ConfigNode': return 'node_as_config(%s)' % v(fg, e['obj'])
    return C.as_(fg, e)
def new_pool(fg, e):
    fg.write(RUN, 'run_pool(%s)' % fg.read(RUN))
    return 'wpool_new()'
def configure(fg, e): fg.write(RUN, 'run_config(%s, %s)' % (fg.read(RUN), v(fg, e['args'][0]))); return '()'
def assign(fg, e): fg.write(RUN, 'run_assign(%s, %s)' % (fg.read(RUN), v(fg, e['args'][0]))); return '()'
def worker(fg, e): fg.write(RUN, 'run_worker(%s)' % fg.read(RUN)); return 'arb::<i32>()'
def path1(fn):
    def h(fg, e): return '%s(%s)' % (fn, v(fg, e['args'][0]))
    return h
def join(fg, e): return 'path_join(%s, %s)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
COMM = 'boost::mpi::communicator'
def join_eq(fg, e):
    x = fg.hoist(fg.val(e['args'][1])); p = fg.path_lhs(e['args'][0])
    fg.write(p, 'path_join(%s, %s)' % (fg.read(p), x))
    return fg.read(p)
OPTS = {
 'ghostparams': {'main': [('run', 'CRun')]},
 'types': dict([(w, 'WPool') for w in W] + [('YAML::detail::iterator_value', 'YNode'), ('boost::mpi::environment', 'MpiEnv'), (COMM, 'MpiWorld'), ('std::shared_ptr<%s>' % COMM, 'MpiWorld')]),
 'ctors': dict([(w, new_pool) for w in W] + [('boost::mpi::environment', lambda fg, e: 'mpi_env()'), ('std::shared_ptr<%s>' % COMM, lambda fg, e: v(fg, e['args'][0]))]),
 'make_shared': {COMM: lambda fg, e: 'mpi_world()'},
 'methods': dict([((w, 'update_config'), configure) for w in W] + [((w, 'assign'), assign) for w in W] + [((N, 'as'), as_), ((N, 'size'), lambda fg, e: 'vec_len(node_items(%s))' % v(fg, e['obj'])), (('YAML::detail::iterator_value', 'as'), as_), ((COMM, 'rank'), lambda fg, e: 'mpi_rank()')]),
 'ops': {('[]', 'YNode'): child, ('/', 'CVec<u8>'): join, ('/=', 'CVec<u8>'): join_eq},
 'lib': {'YAML::LoadFile': path1('yaml_load'), 'boost::filesystem::canonical': path1('path_canonical'), 'boost::filesystem::current_path': lambda fg, e: 'vec_new::<u8>()',
   'boost::filesystem::is_regular_file': path1('file_is'), 'main_mpi_worker': worker},
 'ranges': {'YNode': 'node_items'},
}
