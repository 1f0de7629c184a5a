OPTS = {'libnames': {'fmpz_init', 'fmpz_clear', 'fmpz_set_ui', 'fmpz_init_set_ui', 'fmpz_set', 'fmpz_init_set', 'fmpz_add', 'fmpz_add_ui', 'fmpz_mul', 'fmpz_mul_ui', 'fmpz_mul_2exp', 'fmpz_fdiv_q_2exp', 'fmpz_divexact_ui', 'n_gcd',
  'nmod_poly_init2', 'nmod_poly_clear', 'nmod_poly_set_coeff_ui', 'nmod_poly_get_coeff_ui', 'nmod_poly_is_squarefree', 'nmod_poly_degree', 'nmod_poly_factor_init', 'nmod_poly_factor', 'nmod_poly_factor_clear',
  'fq_nmod_poly_init2', 'fq_nmod_poly_clear', 'fq_nmod_poly_set_coeff', 'fq_nmod_poly_is_squarefree', 'fq_nmod_poly_degree', 'fq_nmod_poly_factor_init', 'fq_nmod_poly_factor', 'fq_nmod_poly_factor_clear', 'fq_nmod_init', 'fq_nmod_clear'},
 'libfields': {'nmod_poly_factor_struct::num': 'pf_num', 'nmod_poly_factor_struct::exp': 'pf_exp', 'nmod_poly_factor_struct::p': 'pf_polys', 'fq_nmod_poly_factor_struct::num': 'fpf_num', 'fq_nmod_poly_factor_struct::exp': 'fpf_exp', 'fq_nmod_poly_factor_struct::poly': 'fpf_polys'}}
