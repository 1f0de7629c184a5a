def names(k, l): return {'fq_%s_%s' % (k, x) for x in l.split()}
OPTS = {'libnames': {'flint_randinit', 'flint_randclear', 'fmpz_set_si'}
  | names('nmod', 'ctx_init ctx_init_conway ctx_clear gen one zero set reduce mul add sub neg pow_ui equal is_zero is_one randtest is_square')
  | names('zech', 'ctx_init ctx_init_conway ctx_clear init clear gen one zero set reduce mul add sub neg pow_ui equal is_zero is_one is_square')}
