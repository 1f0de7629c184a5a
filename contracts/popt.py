import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'vt'))
import cxx2verus as X
PO = 'boost::program_options::'
def v(fg, e): return fg.hoist(fg.val(e))
def opt(fg, e): return 'popt_new()'
def opt_op(fg, e): return 'popt_new()'
def unit(fg, e): return '()'
def count(fg, e): return 'opt_count(%s)' % v(fg, e['args'][0])
def as_opt(fg, e):
    o = e['obj']
    while o['k'] in ('Cast', 'Paren'): o = o['e']
    if not (o['k'] == 'OpCall' and o['op'] == '[]'): fg.bad('value of an option')
    r = fg.g.rt(X.unq(e['t']))
    k = v(fg, o['args'][1])
    if r not in ('CVec<u8>', 'i32', 'u32', 'CVec<u32>'): fg.bad('option of type ' + r)
    return 'opt_as_%s(%s)' % ({'CVec<u8>': 'str', 'CVec<u32>': 'list'}.get(r, r), k)
PT = [PO + x for x in ('options_description', 'positional_options_description', 'options_description_easy_init', 'variables_map', 'basic_command_line_parser', 'basic_parsed_options', 'typed_value', 'variable_value', 'abstract_variables_map', 'parsed_options', 'command_line_parser')]
OPTS = {
 'types': dict([(t, 'POpt') for t in PT]),
 'ctors': dict([(t, opt) for t in PT]),
 'methods': dict([((t, m), opt) for t in PT for m in ('add_options', 'add', 'options', 'positional', 'run', 'default_value', 'composing', 'multitoken')] + [((t, 'count'), count) for t in PT] + [((t, 'as'), as_opt) for t in PT] + [(('std::map', 'count'), count)]),
 'callop': {PO + 'options_description_easy_init': opt_op},
 'lib': {PO + 'store': unit, PO + 'notify': unit, PO + 'value': opt},
}
