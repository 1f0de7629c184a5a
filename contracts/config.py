import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
P = 'boost::filesystem::path'; N = 'YAML::Node'
def v(fg, e): return fg.hoist(fg.val(e))
def identity(fg, e): return fg.val(e['obj'])
def path_ctor(fg, e): return fg.val(e['args'][0]) if e['args'] else 'vec_new::<u8>()'
def child(fg, e): return 'node_child(%s, %s)' % (v(fg, e['args'][0]), v(fg, e['args'][1]))
def absent(fg, e): return '!node_defined(%s)' % v(fg, e['args'][0])
def defined(fg, e): return 'node_defined(%s)' % v(fg, e['obj'])
SUF = {'u32': 'u32', 'i32': 'i32', 'bool': 'bool', 'CVec<u8>': 'str', 'u64': 'u64', 'i64': 'i64'}
def as_(fg, e):
    r = fg.g.rt(e['t'])
    if r not in SUF: fg.bad('Node::as ' + r)
    return 'node_as_%s(%s)' % (SUF[r], v(fg, e['obj']))
def assign(fg, e):
    l = e['args'][0]
    while l['k'] in ('Cast', 'Paren'): l = l['e']
    if not (l['k'] == 'OpCall' and l['op'] == '[]'): fg.bad('assignment of a node')
    key = v(fg, l['args'][1])
    x = v(fg, e['args'][1]); r = fg.g.rt(X.unq(e['args'][1]['t']))
    p = fg.path_lhs(l['args'][0])
    if r not in SUF: fg.bad('Node = ' + r)
    fg.write(p, 'node_set_%s(%s, %s, %s)' % (SUF[r], fg.read(p), key, x))
    return '()'
def dirq(fn):
    def h(fg, e): return '%s(%s)' % (fn, v(fg, e['args'][0]))
    return h
OPTS = {
 'types': {P: 'CVec<u8>', N: 'YNode'},
 'ctors': {P: path_ctor, N: lambda fg, e: 'node_new()' if not e['args'] else fg.val(e['args'][0])},
 'methods': {(P, 'native'): identity, (P, 'string'): identity, (P, 'generic_string'): identity, (N, 'as'): as_, (N, 'operator bool'): defined, (N, 'IsDefined'): defined},
 'ops': {('[]', 'YNode'): child, ('!', 'YNode'): absent, ('=', 'YNode'): assign},
 'lib': {'boost::filesystem::is_directory': dirq('dir_is'), 'boost::filesystem::create_directories': dirq('dir_create'), 'boost::filesystem::exists': dirq('dir_is')},
}
