import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
def copy(fg, e):
    a, b, c = e['args']
    if fg.g.rt(X.unq(a['t'])) != 'DirIt': fg.bad('copy')
    while c['k'] in ('Cast', 'Paren') or c['k'] == 'Construct' and len(c['args']) == 1: c = c['e'] if 'e' in c else c['args'][0]
    if not (c['k'] == 'Call' and 'back_inserter' in str(c.get('fn', c))): fg.bad('copy to ' + c['k'])
    p = fg.path_lhs(c['args'][0])
    x = fg.hoist(fg.val(a))
    fg.hoist(fg.val(b))
    fg.write(p, 'dir_append(%s, %s)' % (fg.read(p), x))
    return '()'
OPTS = {'ghostparams': {'merge': [('fs', 'Fs')], 'main': [('fs', 'Fs')]}, 'lib': {'std::copy': copy}, 'types': {'std::back_insert_iterator': '()'}}
