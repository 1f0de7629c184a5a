import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
C = 'boost::mpi::communicator'; M = 'MPIWorkerPool'
def v(fg, e): return fg.hoist(fg.val(e))
def strip(e):
    while e['k'] in ('Cast', 'Paren'): e = e['e']
    return e
def deref(fg, e):
    o = e['obj']
    while o['k'] == 'OpCall' and o['op'] == '->': o = o['args'][0]
    return fg.deref(o)
def tag(fg, e):
    t = strip(e)
    if t['k'] != 'Ref': fg.bad('message tag')
    return t['name']
def guard(fg):
    if fg.thispath is not None: fg.emit('mutex_guard(%s);' % fg.read(fg.thispath.ext(('field', 'mpi_mutex'), None)))
def pool(fg):
    # the thread pool of the process
    r = [b[1] for b in fg.env.values() if b[0] == 'var' and b[2] is not None and fg.g.rt(b[2]) == 'SPtr<ThreadPool>']
    if len(r) != 1: fg.bad('thread pool')
    return r[0]
def probe(fg, e):
    p = deref(fg, e)
    r = fg.hoist('comm_probe(%s)' % fg.read(p), 'r')
    fg.write(p, r + '.1')
    return r + '.0'
def bcast(fg, e):
    w = v(fg, e['args'][0]); q = fg.path_lhs(e['args'][1])
    fg.write(q, 'bcast(%s, %s)' % (w, fg.read(q)))
    return '()'
def send(fg, e):
    p = deref(fg, e); t = tag(fg, e['args'][1])
    to = v(fg, e['args'][0]); x = v(fg, e['args'][2])
    guard(fg)
    fg.hints('before send')
    if fg.thispath is None:
        fg.write(p, 'reply_%s(%s, %s, %s, %s)' % (t, fg.read(p), to, x, pool(fg)))
    else: fg.write(p, 'send_%s(%s, %s, %s)' % (t, fg.read(p), to, x))
    return '()'
def recv(fg, e):
    p = deref(fg, e); t = tag(fg, e['args'][1])
    fr = v(fg, e['args'][0]); q = fg.path_lhs(e['args'][2])
    guard(fg)
    if fg.thispath is None: r = fg.hoist('get_%s(%s, %s)' % (t, fg.read(p), fr), 'r')
    else: r = fg.hoist('recv_%s(%s, %s)' % (t, fg.read(p), fr), 'r')
    fg.write(q, r + '.0'); fg.write(p, r + '.1')
    return '()'
def size(fg, e): return 'comm_size(%s)' % fg.read(deref(fg, e))
def new_fs(fg, e):
    c = v(fg, e['args'][0])
    if fg.thispath is None or fg.f.get('cls') != M: fg.bad('FileStore')
    fg.emit('config_done_mpi(%s);' % fg.read(fg.thispath))
    return 'sptr_new(fs_new(%s))' % c
OPTS = {
 'make_shared': {'FileStore': new_fs},
 'types': {C: 'CComm', 'boost::mpi::status': 'CStatus'},
 'lib': {'boost::mpi::broadcast': bcast, 'create_store_factory': lambda fg, e: 'factory_new(%s)' % v(fg, e['args'][0])},
 'methods': {(C, 'probe'): probe, ('boost::mpi::status', 'tag'): lambda fg, e: 'status_tag(%s)' % v(fg, e['obj']), (C, 'send'): send, (C, 'recv'): recv, (C, 'size'): size},
 'extrafields': {M: [('saves', 'CSaves')]},
}
