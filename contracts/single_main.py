import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
OPTS = {'ghostparams': {'main': [('out', 'COut')]}, 'console': {'out': {'Curve': 'out_curve'}},
  'lib': {'n_is_prime': lambda fg, e: 'n_is_prime(%s)' % fg.hoist(fg.val(e['args'][0]))}}
