import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
P = 'boost::filesystem::path'
def v(fg, e): return fg.hoist(fg.val(e))
def identity(fg, e): return fg.val(e['obj'])
def path_ctor(fg, e): return fg.val(e['args'][0]) if e['args'] else 'vec_new::<u8>()'
SUF = {'u32': 'u32', 'i32': 'i32', 'bool': 'bool', 'CVec<u8>': 'str', 'u64': 'u64', 'i64': 'i64', 'u8': 'u8', 'i8': 'i8', 'u16': 'u16', 'i16': 'i16'}
def suf(fg, e):
    r = fg.g.rt(X.unq(e['t']))
    if r not in SUF: fg.bad('archive & ' + r)
    return SUF[r]
def save(fg, e):
    a, x = e['args']; s = suf(fg, x); y = v(fg, x); p = fg.path_lhs(a)
    fg.write(p, 'ar_put_%s(%s, %s)' % (s, fg.read(p), y)); return '()'
def load(fg, e):
    a, x = e['args']; s = suf(fg, x); p = fg.path_lhs(a); q = fg.path_lhs(x)
    r = fg.hoist('ar_get_%s(%s)' % (s, fg.read(p)), 'r')
    fg.write(p, r + '.0'); fg.write(q, r + '.1'); return '()'
def both(fg, e): return (save if fg.g.rt(X.unq(e['args'][0]['t'])) == 'OArch' else load)(fg, e)
T = {P: 'CVec<u8>'}
for o in ('boost::mpi::packed_oarchive', 'boost::archive::detail::interface_oarchive', 'boost::archive::detail::common_oarchive'): T[o] = 'OArch'
for o in ('boost::mpi::packed_iarchive', 'boost::archive::detail::interface_iarchive', 'boost::archive::detail::common_iarchive'): T[o] = 'IArch'
OPTS = {
 'types': T, 'ctors': {P: path_ctor},
 'methods': {(P, 'native'): identity, (P, 'string'): identity, (P, 'generic_string'): identity},
 'ops': {('&', 'OArch'): save, ('&', 'IArch'): load, ('<<', 'OArch'): save, ('>>', 'IArch'): load},
}
