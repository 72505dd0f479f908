"""Which contract modules and translation units each property needs."""
import importlib
from . import base

TBX = ['toolbox', 'solver', 'ac', 'tarjan', 'cgraph', 'cvalues', 'solution', 'cellset']
MODULES = {
    'C01': (['tarjan'], ['tarjan']),
    'C02': (['tarjan'], ['tarjan']),
    'C03': (['tarjan'], ['tarjan']),
    'C04': (['tarjan'], ['tarjan']),
    'C05': (['tarjan'], ['tarjan']),

    'C22': (['small'], ['cellset', 'solution']),
    'C19': (['derived'], ['derived', 'solution', 'cellset']),
    'C20': (['derived'], ['derived', 'solution', 'cellset']),
    'C21': (['derived'], ['derived', 'solution', 'cellset']),
    'C06': (['ac'], ['ac']),
    'C07': (['ac'], ['ac']),
    'C08': (['ac'], ['ac']),
    'C09': (['ac'], ['ac']),
    'C10': (['small'], ['cgraph', 'cvalues']),
    'C11': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C12': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C13': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C14': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C15': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C16': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C17': (['small', 'tarjan', 'ac', 'solver', 'toolbox'], TBX),
    'C18': (['small', 'tarjan', 'ac', 'solver', 'toolbox', 'sums'], TBX),
}


def load(prop):
    mods, tus = MODULES[prop]
    lib = base.make_lib()
    cs = []
    for m in mods:
        mod = importlib.import_module('contracts.' + m)
        if hasattr(mod, 'setup'):
            mod.setup(lib)
        cs += getattr(mod, 'CONTRACTS', [])
    # contracts of functions outside the loaded units are irrelevant
    return lib, cs, tus


# lemmas that state a property over the contracts and are checked with it
EXTRA = {'C18': ['wells_add_up', 'inj_sources', 'prod_sources', 'no_cycle', 'no_entry'], 'C01': ['walk_descends', 'walk_closed'], 'C02': ['walk_descends'], 'C03': ['walk_descends', 'walk_closed']}
# functions for which the bounded replay stands in (never counted as proved)
BOUNDED = {}
TRUSTED = ['clang 18 front end (typed AST of the real sources)', 'vc/: the verification-condition generator',
           'vc/stdmodel.py: contracts of the C++ and C standard library', 'z3 4.x / cvc5 1.1.2']
TRUST_BY = {}
ASSUME = ['floating point treated as real arithmetic',
          'memory allocation by the C++ library succeeds']
ASSUME_BY = {}
RULE = {
    'r_tarjan': 'Graphs: all on up to 4 vertices, in interleaved order, plus random ones up to 60 vertices, structured ones up to 2300 and a few up to 140000; random start lists; up to 3 injected allocation failures (C05).',
    'r_ac': 'Connection sequences: all of length up to 4 over 3x3, plus random ones up to 300 connections over up to 200x3000 entities (a few: 4000 connections over 3000x4000), histories of several compressions.',
    'r_small': 'Random tables up to 10 entries (a few up to 4000), value tables up to 6x5 with values from 2^-900 to 2^900, operation sequences up to 14 steps.',
    'r_solver': 'Random flow problems of 2 to 12 (some: up to 100, a few up to 900) cells with up to 8 phases and 40 wells, acyclic and cyclic, scaled by powers of two; problems whose cycles exchange hardly any fluid (slow Gauss-Seidel) are skipped; for C11 and C13 histories of up to 14 calls.',
    'r_derived': 'Random curves and fields of up to 9 (5%: 50 to 300, a few up to 2500) cells, also badly scaled ones.',
}
