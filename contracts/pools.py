import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
T = 'Thread'; P = 'ThreadPool'
def v(fg, e): return fg.hoist(fg.val(e))
def obj(fg, e):
    o = e['obj']
    while o['k'] == 'OpCall' and o['op'] == '->': o = o['args'][0]
    return v(fg, o)
def pool(fg):
    # the pool whose trace records what the threads are told to do
    return fg.thispath
def cfg(fg, e):
    a = e['args'][0]
    return v(fg, a)
def th(kind, arg=False):
    def h(fg, e):
        t = obj(fg, e)
        p = fg.thispath.ext(('field', 'orders'), None)
        if kind == 'start': fg.emit('thread_idle_check(%s, %s, %s);' % (fg.read(fg.thispath), t, v(fg, e['args'][0])))
        x = 'order_%s(%s, %s%s)' % (kind, fg.read(p), t, ', ' + v(fg, e['args'][0]) if arg else '')
        fg.write(p, x)
        if kind == 'start':
            u = fg.thispath.ext(('field', 'unsaved'), None)
            fg.write(u, 'set_insert(%s, %s)' % (fg.read(u), v(fg, e['args'][0])))
        return '()'
    return h
def is_ocl(fg, e): return 'thread_is_opencl(%s)' % obj(fg, e)
def new_thread(fg, e):
    p = fg.thispath.ext(('field', 'born'), None)
    ocl = 'true' if len(e['args']) > 2 and not e['args'][2].get('defaultarg') else 'false'
    r = fg.hoist('thread_new(%s, %s)' % (fg.read(p), ocl), 'r')
    fg.write(p, r + '.1')
    return r + '.0'
W = 'StandaloneWorkerPool'; F = 'FileStore'
def deref(fg, e):
    o = e['obj']
    while o['k'] == 'OpCall' and o['op'] == '->': o = o['args'][0]
    return fg.deref(o)
def flush_store(fg, e):
    p = deref(fg, e)
    r = fg.hoist('pool_flush_store(%s)' % fg.read(p), 'r')
    fg.write(p, r + '.1')
    return r + '.0'
def fs_contains(fg, e): return 'fs_contains(%s, %s)' % (fg.read(deref(fg, e)), v(fg, e['args'][0]))
def fs_save(fg, e):
    f = fg.read(deref(fg, e)); x = v(fg, e['args'][0])
    p = fg.thispath.ext(('field', 'saves'), None)
    fg.write(p, 'fs_save(%s, %s, %s)' % (fg.read(p), f, x))
    return '()'
def new_fs(fg, e):
    c = v(fg, e['args'][0])
    fg.emit('config_done(%s);' % fg.read(fg.thispath.ext(('field', 'master_thread_pool'), None)))
    return 'sptr_new(fs_new(%s))' % c
def now(fg, e): return 'arb::<CTime>()'
OPTS = {
 'types': {'boost::filesystem::path': 'CVec<u8>', 'std::shared_ptr<Thread>': 'THandle', F: 'FsH', 'std::shared_ptr<StoreFactoryInterface>': 'CFactory', 'std::chrono::time_point': 'CTime', 'std::chrono::duration': 'CTime'},
 'ctors': {'std::mutex': lambda fg, e: 'mutex_new()', 'std::shared_ptr<Thread>': lambda fg, e: v(fg, e['args'][0]) if e['args'] else 'arb::<THandle>()', 'std::shared_ptr<StoreFactoryInterface>': lambda fg, e: v(fg, e['args'][0])},
 'defaults': {'THandle': 'arb::<THandle>()'},
 'initfields': {P: [('unsaved', 'set_new::<CVec<(u32, u32)>>()'), ('flushed', 'flushed_new()')], W: [('saves', 'saves_new()')]},
 'make_shared': {T: new_thread, F: new_fs},
 'methods': {(P, 'flush_global_store'): flush_store, (F, 'contains'): fs_contains, (F, 'save'): fs_save, (T, 'is_opencl_thread'): is_ocl, (T, 'spark'): th('spark'), (T, 'shutdown'): th('stop'), (T, 'update_config'): th('config', True), (T, 'assign'): th('start', True)},
 'ops': {('+', 'CTime'): now, ('>', 'CTime'): lambda fg, e: 'arb::<bool>()'},
 'lib': {'std::chrono::_V2::system_clock::now': now, 'std::this_thread::sleep_for': lambda fg, e: '()', 'std::thread::hardware_concurrency': lambda fg, e: 'hardware_threads()'},
 'extrafields': {W: [('saves', 'CSaves')], P: [('born', 'CBorn'), ('orders', 'COrders'), ('unsaved', 'CSet<CVec<(u32, u32)>>'), ('flushed', 'CFlushed')]},
 'guards': {P + '::idle_threads': 'data_mutex', P + '::busy_threads': 'data_mutex', P + '::finished_blocks': 'data_mutex', P + '::ready_threads': 'data_mutex'},
 # nobody else knows the pool yet
 'unguarded': ['spark'],
 'envlock': {P + '::data_mutex': {'assign': 'pool_env', 'flush_ready': 'pool_env', 'flush_finished': 'pool_env'}},
}
