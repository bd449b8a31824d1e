"""The model-checking runs of each property: (module, constants, invariants[, violated]).
quick runs are small; thorough runs go further.  A fourth entry names the invariant that
a deliberately wrong model must violate."""

PIERI = ['Class', 'Graded', 'UnitLaw', 'Commute', 'Triangular', 'Enumerated']
RING = ['Unit', 'Commutative', 'Associative', 'Graded', 'ClassicalLimit', 'PieriAgrees', 'Pairing', 'Symmetric',
        'RimHookTheorem', 'LittlewoodRichardson']
INDEX = ['IsSymbol', 'IsLabel', 'BackAndForth', 'Length', 'Counted', 'Duality', 'DualReverses', 'Pairs', 'Involutions',
         'Described']
RIM = ['IsPart', 'Geometric', 'Summary', 'CoreKept']
EXPR = ['Homomorphism', 'Linear', 'NoZeros', 'TreeValue', 'Special']
SCHURPOLY = ['Bialternant', 'Symmetric', 'Degree', 'OneBox', 'TooLong']
TOOLBOX = ['Transposed', 'Counted', 'Found', 'Paths', 'Inclusion', 'ClipRoundTrip', 'Drawn', 'Ordered']
CACHE = ['NoDup', 'Bounded', 'OnceWithinCapacity', 'MostRecent', 'RaisedForgotten']


def grass(module, invariants, types, n, classes):
    return (module, {"Types": set(types), "MaxN": n, "MaxClasses": classes}, invariants)


def expr(t, k, n, depth):
    return ('MCExpr', {"Type": t, "K": k, "N": n, "Depth": depth}, EXPR)


def session(mode, depth, violated=None):
    c = {"NObj": 2, "NF": 2, "NVar": 2, "Depth": depth, "Mode": mode, "Emit": False, "Weighted": False}
    return ('MCSession', c, ['Functional', 'Untouched'], violated) if violated else \
        ('MCSession', c, ['Functional', 'Untouched'])


def cache(nk, cap, depth, raising, nest):
    return ('MCCache', {"NKeys": nk, "Cap": cap, "Depth": depth, "Raising": set(raising), "Nest": nest, "Emit": False},
            CACHE)


QUICK, THOROUGH = {}, {}
for pid, t in (('C01', 'A'), ('C02', 'C'), ('C03', 'B'), ('C04', 'D')):
    QUICK[pid] = [grass('MCPieri', PIERI, t, 5 if t == 'A' else 4, 20 if t == 'A' else 28)]
    THOROUGH[pid] = [grass('MCPieri', PIERI, t, 8 if t == 'A' else 6, 72 if t == 'A' else 100)]
for pid in ('C05', 'C06', 'C07', 'C08', 'C09', 'C21'):
    QUICK[pid] = [grass('MCRing', RING, 'ABCD', 4, 12)]
    THOROUGH[pid] = [grass('MCRing', RING, t, 6, 36) for t in 'ABCD']
QUICK['C10'] = [grass('MCRing', RING, 'ABCD', 4, 12), grass('MCIndex', INDEX, 'ABCD', 4, 40)]
THOROUGH['C10'] = [grass('MCRing', RING, t, 6, 36) for t in 'ABCD'] + [grass('MCIndex', INDEX, 'ABCD', 7, 240)]
for pid in ('C11', 'C12', 'C13', 'C14', 'C23'):
    QUICK[pid] = [grass('MCIndex', INDEX, 'ABCD', 5, 80)]
    THOROUGH[pid] = [grass('MCIndex', INDEX, t, 8, 500) for t in 'ABCD']
QUICK['C15'] = [grass('MCRing', RING, 'A', 6, 20), ('MCRim', {"MaxRows": 3, "MaxCols": 3, "MaxR": 5}, RIM)]
THOROUGH['C15'] = [grass('MCRing', RING, 'A', 7, 36), ('MCRim', {"MaxRows": 5, "MaxCols": 5, "MaxR": 9}, RIM)]
QUICK['C16'] = [('MCRim', {"MaxRows": 4, "MaxCols": 4, "MaxR": 7}, RIM)]
THOROUGH['C16'] = [('MCRim', {"MaxRows": r, "MaxCols": c, "MaxR": 10}, RIM) for r, c in ((5, 5), (4, 7), (7, 3))]
QUICK['C17'] = [session('keyed', 4), session('noobj', 3, 'Functional'), session('alias', 3, 'Functional'),
                session('argref', 4, 'Functional'), session('borrow', 3, 'Functional')]
THOROUGH['C17'] = [session('keyed', 5)]
for pid in ('C18', 'C19', 'C20', 'C25'):
    QUICK[pid] = [expr('A', 1, 2, 3), expr('D', 1, 1, 3), expr('B', 0, 1, 4)]
    THOROUGH[pid] = [expr('A', 2, 4, 3), expr('C', 0, 2, 4), expr('D', 1, 2, 3), expr('A', 1, 2, 4)]
QUICK['C22'] = [('MCSchurPoly', {"NVars": 3, "MaxSize": 7}, SCHURPOLY), ('MCSchurPoly', {"NVars": 2, "MaxSize": 9}, SCHURPOLY)]
THOROUGH['C22'] = [('MCSchurPoly', {"NVars": 4, "MaxSize": 6}, SCHURPOLY), ('MCSchurPoly', {"NVars": 3, "MaxSize": 11}, SCHURPOLY)]
for pid in ('C24', 'C26', 'C27'):
    QUICK[pid] = [('MCToolbox', {"MaxRows": 4, "MaxCols": 4}, TOOLBOX)]
    THOROUGH[pid] = [('MCToolbox', {"MaxRows": r, "MaxCols": c}, TOOLBOX) for r, c in ((5, 5), (3, 7), (7, 3))]
QUICK['C28'] = [cache(4, 2, 7, [1], 0), cache(3, 2, 7, [], 1)]
THOROUGH['C28'] = [cache(5, 3, 8, [1, 2], 0), cache(3, 99, 8, [1], 2)]

PROGRAM = ['Inside', 'Rerun', 'Automorphism']


def program(t, k, n, depth):
    return ('MCProgram', {"Type": t, "K": k, "N": n, "Depth": depth, "Drawn": False, "Emit": False}, PROGRAM)


QUICK['C29'] = [program('A', 1, 2, 3), program('D', 1, 1, 2), program('C', 0, 2, 2)]
THOROUGH['C29'] = [program('A', 1, 1, 4), program('D', 1, 1, 3), program('B', 0, 1, 4), program('C', 0, 2, 3)]

QUICK['C31'] = QUICK['C19']
THOROUGH['C31'] = THOROUGH['C19']
ISO = ['Bijective', 'Degrees', 'Homomorphism', 'Duals']
QUICK['C30'] = [grass('MCIso', ISO, 'ABCD', 5, 24)]
THOROUGH['C30'] = [grass('MCIso', ISO, t, 10, 80) for t in 'ABCD']


def models(pid, tier, rng):
    out = list(QUICK.get(pid, []))
    if tier == 'thorough':
        out += THOROUGH.get(pid, [])
    return out
