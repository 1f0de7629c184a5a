import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
T = 'Thread'; ST = 'StoreInterface'
def v(fg, e): return fg.hoist(fg.val(e))
def strip(e):
    while e['k'] in ('Cast', 'Paren', 'Temp'): e = e['e']
    return e
def base(e):
    o = e['obj']
    while o['k'] == 'OpCall' and o['op'] == '->': o = o['args'][0]
    return o
def squarefree(fg, e): return 'curve_squarefree(%s)' % fg.read(fg.path(e['obj']))
def count(fg, e):
    p = fg.path(e['obj'])
    fg.write(p, 'curve_count(%s, %s)' % (fg.read(p), v(fg, e['args'][0])))
    return '()'
def register(fg, e):
    p = fg.deref(base(e))
    fg.write(p, 'store_register(%s, %s)' % (fg.read(p), v(fg, e['args'][0])))
    return '()'
def worker_name(fg):
    r = [b for b in fg.env.values() if b[0] == 'var' and b[2] is not None and fg.g.rt(b[2]) == 'SPtr<Thread>']
    if len(r) != 1: fg.bad('worker')
    return X.Path(r[0][1], [], r[0][2]) if isinstance(r[0][1], str) else r[0][1]
def flush(fg, e):
    s = fg.read(fg.deref(base(e))); b = v(fg, e['args'][0])
    w = worker_name(fg); t = fg.hoist('sptr_get(%s)' % fg.read(w), 't')
    fg.write(w, 'sptr_set(%s, thread_flush(%s, %s, %s))' % (fg.read(w), t, s, b))
    return '()'
def finished(fg, e):
    q = v(fg, base(e)); b = v(fg, e['args'][0])
    w = worker_name(fg); t = fg.hoist('sptr_get(%s)' % fg.read(w), 't')
    fg.write(w, 'sptr_set(%s, thread_finished(%s, %s, %s))' % (fg.read(w), t, q, b))
    return '()'
def create(fg, e):
    return 'factory_create(%s)' % v(fg, base(e))
def wlock(fg, e): return 'wpool_lock(%s)' % v(fg, e['obj'])
def new_tab(fg, e): return 'tab_new(%s, %s)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
def new_red(fg, e):
    a = e['args']
    o = v(fg, a[2]) if len(a) > 2 and not a[2].get('defaultarg') else 'no_opencl()'
    return 'red_new(%s, %s, %s)' % (v(fg, a[0]), v(fg, a[1]), o)
def new_curve(fg, e): return 'curve_new(%s, %s)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
def start(fg, e):
    a = [x for x in e['args']]
    if not a: return 'arb::<CStdThread>()'
    if len(a) == 1: return v(fg, a[0])
    f = strip(a[0])
    if 'main_thread' not in str(f.get('name', '')) + str(f.get('fn', '')) + str(f): fg.bad('thread function')
    return 'std_thread(%s, %s)' % (fg.read(fg.thispath), v(fg, a[2]))
def copy(name): return lambda fg, e: v(fg, e['args'][0]) if e['args'] else 'arb::<%s>()' % name
SP = 'std::shared_ptr<%s>'
OPTS = {
 'types': {'boost::filesystem::path': 'CVec<u8>', SP % 'FqElementTable': 'TabH', SP % 'ReductionTable': 'RedH', SP % 'OpenCLInterface': 'OclH', SP % 'StoreFactoryInterface': 'CFactory', 'std::weak_ptr<ThreadPool>': 'WPool', 'ThreadPool': 'PoolM',
   'std::thread': 'CStdThread', 'std::condition_variable': 'CCond', 'Curve': 'CurveH', ST: 'StoreM'},
 'ctors': {SP % 'FqElementTable': copy('TabH'), SP % 'ReductionTable': copy('RedH'), SP % 'OpenCLInterface': copy('OclH'), SP % 'StoreFactoryInterface': copy('CFactory'), 'std::weak_ptr<ThreadPool>': copy('WPool'),
   'Curve': new_curve, 'std::thread': start, 'std::mutex': lambda fg, e: 'mutex_new()'},
 'defaults': {k: 'arb::<%s>()' % k for k in ('TabH', 'RedH', 'OclH', 'CFactory', 'WPool')},
 'make_shared': {'FqElementTable': new_tab, 'ReductionTable': new_red},
 'methods': {('Curve', 'has_squarefree_rhs'): squarefree, ('Curve', 'count'): count, (ST, 'register_curve'): register, (ST, 'flush_to_static_store'): flush, ('ThreadPool', 'finished_block'): finished,
   ('StoreFactoryInterface', 'create'): create, ('std::weak_ptr', 'lock'): wlock, ('std::thread', 'join'): lambda fg, e: (fg.emit('thread_join(%s);' % fg.read(fg.thispath)), '()')[1]},
 'conds': {T + '::main_cond_var': ('thread_notify', 'thread_wait')},
 'extrafields': {T: [('all', 'CJobs'), ('done', 'CDone'), ('woken', 'CWoken')]},
 'guards': {T + '::blocks': 'data_mutex', T + '::shutting_down': 'data_mutex'},
 'unguarded': ['spark'],
 'envlock': {T + '::data_mutex': {'main_thread': 'worker_env', '*': 'owner_env'}},
}
