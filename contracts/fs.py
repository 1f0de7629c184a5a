import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
P = 'boost::filesystem::path'
# the file system: a ghost field of FileStore, a ghost parameter of a free function
def FS(fg): return X.Path('fs', (), None) if X.strip_targs(fg.f['name']) in fg.g.opts.get('ghostparams', {}) else X.Path('this', (('field', 'fs'),), None)
def val(fg, e): return fg.hoist(fg.val(e))
def str_arg(fg, e): return fg.hoist(fg.val(e))
def path_ctor(fg, e):
    if not e['args']: return 'vec_new::<u8>()'
    return fg.val(e['args'][0])
def identity(fg, e): return fg.val(e['obj'])
def mode(fg, a):
    while a['k'] in ('Cast', 'Paren'): a = a['e']
    if a['k'] == 'Ref' and a['name'] in ('in', 'out'): return a['name']
    fg.bad('open mode')
def fstream_ctor(fg, e):
    p = fg.hoist(fg.val(e['args'][0])); m = mode(fg, e['args'][1])
    if m == 'in': return 'fs_open_in(%s, %s)' % (fg.read(FS(fg)), p)
    r = fg.hoist('fs_open_out(%s, %s)' % (fg.read(FS(fg)), p), 'r')
    fg.write(FS(fg), r + '.0')
    return r + '.1'
def close(fg, e):
    p = fg.objpath(e)
    r = fg.hoist('fs_close(%s, %s)' % (fg.read(FS(fg)), fg.read(p)), 'r')
    fg.write(FS(fg), r + '.0'); fg.write(p, r + '.1')
    return '()'
def rename(fg, e):
    a, b = [fg.hoist(fg.val(x)) for x in e['args'][:2]]
    fg.write(FS(fg), 'fs_rename(%s, %s, %s)' % (fg.read(FS(fg)), a, b))
    return '()'
def replace_extension(fg, e):
    p = fg.objpath(e)
    x = fg.hoist(fg.val(e['args'][0])) if e['args'] else 'vec_new::<u8>()'
    fg.write(p, 'path_replace_extension(%s, %s)' % (fg.read(p), x))
    return '()'
def query(fn):
    def h(fg, e): return '%s(%s, %s)' % (fn, fg.read(FS(fg)), fg.hoist(fg.val(e['args'][0])))
    return h
def join(fg, e): return 'path_join(%s, %s)' % (fg.hoist(fg.val(e['args'][0])), fg.hoist(fg.val(e['args'][1])))
def dir_inc(fg, e):
    p = fg.path_lhs(e['args'][0])
    fg.write(p, 'dir_inc(%s)' % fg.read(p))
    return '()'
def dir_cmp(neg):
    def h(fg, e): return '%sdir_eq(%s, %s)' % (neg, fg.hoist(fg.val(e['args'][0])), fg.hoist(fg.val(e['args'][1])))
    return h
def dir_deref(fg, e): return 'dir_at(%s)' % fg.hoist(fg.val(e['args'][0]))
def dir_ctor(fg, e):
    if not e['args']: return 'dir_end()'
    return 'dir_open(%s, %s)' % (fg.read(FS(fg)), fg.hoist(fg.val(e['args'][0])))
def part(k): return lambda fg, e: 'path_part(Ghost(%dint), %s)' % (k, fg.hoist(fg.val(e['obj'])))
def has(k): return lambda fg, e: 'path_has(Ghost(%dint), %s)' % (k, fg.hoist(fg.val(e['obj'])))
def join_eq(fg, e):
    x = fg.hoist(fg.val(e['args'][1])); p = fg.path_lhs(e['args'][0])
    fg.write(p, 'path_join(%s, %s)' % (fg.read(p), x))
    return fg.read(p)
OPTS = {
 'types': {P: 'CVec<u8>', 'boost::filesystem::directory_iterator': 'DirIt', 'boost::iterators::iterator_facade': 'DirIt', 'boost::iterators::detail::iterator_facade_base': 'DirIt', 'boost::filesystem::directory_entry': 'CVec<u8>', 'std::random_device': 'CRand', 'std::uniform_int_distribution': 'CDist'},
 'ctors': {P: path_ctor, 'std::basic_fstream': fstream_ctor, 'boost::filesystem::directory_iterator': dir_ctor, 'std::random_device': lambda fg, e: 'rand_new()', 'std::uniform_int_distribution': lambda fg, e: 'dist_new()'},
 'methods': {(P, 'native'): identity, (P, 'string'): identity, (P, 'generic_string'): identity, (P, 'c_str'): identity, (P, 'extension'): lambda fg, e: 'path_extension(%s)' % fg.hoist(fg.val(e['obj'])),
   (P, 'replace_extension'): replace_extension,
   (P, 'stem'): part(0), (P, 'filename'): part(1), (P, 'parent_path'): part(2), (P, 'has_extension'): has(0), (P, 'has_stem'): has(1), (P, 'has_filename'): has(2), (P, 'has_parent_path'): has(3), (P, 'empty'): lambda fg, e: '(vec_len(%s) == 0)' % fg.hoist(fg.val(e['obj'])),
   ('std::basic_fstream', 'close'): close, ('std::basic_ofstream', 'close'): close},
 'lib': {'boost::filesystem::rename': rename, 'boost::filesystem::is_regular_file': query('fs_is_file'), 'boost::filesystem::file_size': query('fs_size'), 'boost::filesystem::is_directory': query('fs_is_dir'), 'boost::filesystem::exists': query('fs_exists'), 'boost::filesystem::operator/': join},
 'ops': {('++', 'DirIt'): dir_inc, ('!=', 'DirIt'): dir_cmp('!'), ('==', 'DirIt'): dir_cmp(''), ('*', 'DirIt'): dir_deref,
   ('/', 'CVec<u8>'): join, ('/=', 'CVec<u8>'): join_eq},
 'callop': {'std::uniform_int_distribution': lambda fg, e: 'rand_draw()'},
 'extrafields': {'FileStore': [('fs', 'Fs')]},
}
