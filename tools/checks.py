"""Programs which decide each property."""
SHIM = 'takatori/yugawara are not installed: /repo is compiled against the stand-ins in /verif/shim, which are trusted to behave like the real libraries'
def one(name, config='fast', **k): return {'programs': [dict(name=name, config=config, **k)], 'assumptions': [SHIM]}
CHECKS = {
    'C01': one('c01_total', 'san'),
    'C02': one('c02_fidelity'),
    'C03': one('c03_invariance'),
    'C04': one('c04_regions'),
    'C05': one('c05_lexical'),
    'C06': one('c06_limits'),
    'C07': one('c07_comments'),
    'C08': one('c08_enums'),
    'C09': one('c09_ast'),
    'C10': one('c10_errors'),
    'C11': one('c11_options'),
    'C12': one('c12_build'),
    'A01': one('a01_analyze', 'san'),
    'A02': one('a02_select'),
    'A03': one('a03_dml'),
    'A04': one('a04_ddl'),
    'A06': one('a06_literals', 'san'),
    'A07': one('a07_types'),
    'A05': one('a05_calls'),
    'A08': one('a08_names'),
    'A10': one('a10_groups'),
    'A11': one('a11_options'),
    'A12': one('a12_rename'),
    'A13': one('a13_threads', 'tsan'),
    'A14': one('a14_trees', 'san'),
    'A16': one('a16_unsupported'),
}
