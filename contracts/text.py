import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
OPTS = {'libnames': {'fmpz_get_str', 'fmpz_set_str'}, 'lib': {'flint_free': lambda fg, e: '()'}, 'defaults': {'Count_ValueType': 'count_zero().this'}}
