from . import gen_products as gp
from . import gen_maps as gm
from . import gen_values as gv
from . import gen_cache as gc
from . import gen_session as gs
from . import gen_programs as gpr
from . import gen_iso as gi

GENERATORS = {
    'C01': gp.gen_pieri, 'C02': gp.gen_pieri, 'C03': gp.gen_pieri, 'C04': gp.gen_pieri,
    'C05': gp.gen_giambelli, 'C06': gp.gen_mult, 'C07': gp.gen_mult, 'C08': gp.gen_laws,
    'C09': gp.gen_graded, 'C15': gp.gen_rh,
    'C10': gm.gen_duality, 'C11': gm.gen_info, 'C12': gm.gen_index, 'C13': gm.gen_pairs, 'C14': gm.gen_types,
    'C16': gv.gen_rim, 'C18': gv.gen_spelling, 'C19': gv.gen_arith, 'C20': gv.gen_expansion, 'C21': gv.gen_tables,
    'C22': gv.gen_schurpoly, 'C23': gv.gen_domain, 'C24': gv.gen_schur, 'C25': gv.gen_csv, 'C26': gv.gen_utils,
    'C27': gv.gen_sage, 'C28': gc.gen_cache, 'C17': gs.gen_session, 'C29': gpr.gen_program,
    'C30': gi.gen_iso, 'C31': gi.gen_inspect,
}
# the specification a property's traces are validated against
TRACE_MODULE = {'C17': 'SessionTrace'}
TECHNIQUES = {
    'C29': "TLA+ model of computations (MCProgram) checked with TLC; random behaviours of it replayed into the library and "
           "every intermediate result validated against Program.tla",
    'C17': "TLA+ model of sessions (MCSession) checked with TLC; its behaviours replayed into the library; every answer "
           "and every value held by the caller validated against SessionTrace.tla",
    'C28': "TLA+ model of the cache (MCCache) checked with TLC; all its histories up to a bound replayed into the "
           "decorators; every history validated against Cache.tla",
}
NOTES = {
    'C17': "All sessions of 3 steps are enumerated, sampled by shape for replay; random longer ones; threads are sampled, "
           "not exhausted.",
    'C28': "All histories within the listed bounds, random ones beyond them.",
}
