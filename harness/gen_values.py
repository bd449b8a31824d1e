"""Events about values: Schur objects, LinearCombination arithmetic, expansions,
drawings, tables, Schur polynomials, constructors, CSV tables, utilities, rim
hooks, Sage conversions (C16, C18-C27)."""
import csv as csvmod
import os
import re
import tempfile
from fractions import Fraction
from math import comb

from . import algebra as al
from . import varieties as va
from .inputs import make, linear, polynomial, build, arg, cls_of, coef, qmono
from .gen_products import ALL, qnames, shard, spec_poly
from .gen_maps import labels_of, type_data, describe_all, index_sets, pair_label, random_index


def as_bool(x):
    return {"kind": "bool", "v": x} if isinstance(x, bool) else {"kind": "odd", "text": repr(x)[:200]}


def rand_part(rng, maxlen=6, maxpart=9, zeros=0.0):
    n = rng.randint(0, maxlen)
    l = sorted((rng.randint(1, maxpart) for _ in range(n)), reverse=True)
    while rng.random() < zeros:
        l.append(0)
    return l


# ---- C16 ---------------------------------------------------------------------

def gen_rim(rec, rng, pid, tier, i, n):
    from schubertpy import Partition
    quick = tier == 'quick'
    for _ in range(250 if quick else 4000):
        if rec.over():
            return
        r = rng.random()
        l = rand_part(rng, 6, 8, 0.2)
        if r < 0.3:
            l = [rng.randint(-2, 6) for _ in range(rng.randint(0, 5))]
        elif r < 0.4 and l:
            j = rng.randrange(len(l))
            l[j] += rng.choice([1, -1, 5, -9])
        lst, ints = list(l), True
        if r > 0.95:
            lst, ints = rng.choice([([1.5, 1], False), (['2', '1'], False), ([None], False), ([2.0, 1], False),
                                    ('21', False), (None, False), (7, False)])
            l = []
        p, bad = rec.call(Partition, lst)
        res = bad or ({"kind": "labels", "v": [list(p.partition)]} if isinstance(p.partition, list) else {"kind": "odd"})
        rec.emit('partition', l=l, ints=ints, shown=repr(lst), res=res, kept=not ints or lst == l)
        if bad is None and ints:
            rows, cols = rng.choice([(rng.randint(0, 6), rng.randint(0, 9)), (rng.randint(-1, 3), rng.randint(-1, 3)),
                                     (len(l), l[0] if l else 0)])
            x, bad = rec.call(p.is_in_range, rows, cols)
            # the number of rows of the diagram is what counts, not zeros kept at the end
            if not (l and l[-1] == 0 and len([a for a in l if a]) <= rows < len(l)):
                rec.emit('in_range', l=[a for a in l if a], rows=rows, cols=cols, res=bad or as_bool(x),
                         kept=p.partition == l)
    for _ in range(300 if quick else 4000):
        if rec.over():
            return
        height_event(rec, rng)
    # every partition in a box with every hook size and many grids
    box = [l for l in va.kstrict(7, 4, 7)] if quick else [l for l in va.kstrict(8, 5, 8)]
    cases = []
    for l in shard(box, i, n):
        for r in range(1, sum(l) + len(l) + 1):
            for _ in range(2 if quick else 3):
                cases.append((l, r, rng.randint(0, 4), rng.randint(0, 6)))
    rng.shuffle(cases)
    for l, r, R, C in cases[:5000 if quick else 40000]:
        if rec.over():
            return
        rim_event(rec, rng, l, r, R, C)
    # quantum-like cases: removable in several steps
    for _ in range(500 if quick else 8000):
        if rec.over():
            return
        m, k = rng.randint(1, 7), rng.randint(1, 7)
        rows = rng.randint(1, m)
        l = sorted((rng.randint(0, 4 * (m + k)) if j == 0 else rng.randint(0, 2 * k + m) for j in range(rows)), reverse=True)
        l = [a for a in l if a]
        r = m + k if rng.random() < 0.7 else rng.randint(1, 9)
        if rng.random() < 0.3:
            l, r, m, k = add_hooks(rng, m, k)
        rim_event(rec, rng, l, r, m, k)
    # rectangles, hooks, staircases and columns, with hooks about as long as the rim
    for _ in range(600 if quick else 8000):
        if rec.over():
            return
        a, b, c = rng.randint(1, 9), rng.randint(1, 8), rng.randint(1, 9)
        l = rng.choice([lambda: [a] * b, lambda: [a + c] * b + [a] * rng.randint(0, 5), lambda: [a] + [1] * b,
                        lambda: [a + c] + [a] * b, lambda: list(range(a + b, c % a, -1)), lambda: [1] * (a + b),
                        lambda: [a + 2 * j for j in range(b, -1, -1)], lambda: [a + c] * b + [a] * c + [1] * rng.randint(0, 4)])()
        r = rng.choice([l[0] + len(l) - 1 + rng.choice([-2, -1, 0, 0, 0, 1, 2]), rng.randint(1, l[0] + len(l)), l[0], len(l),
                        sum(l), sum(l) + len(l) - 1])
        R, C = rng.choice([(len(l) - 1, l[0]), (len(l), l[0] - 1), (rng.randint(0, len(l)), rng.randint(0, l[0])), (0, 0)])
        if r > 0:
            rim_event(rec, rng, l, r, R, C)


def height_event(rec, rng):
    from schubertpy.partition import skew_partition_height
    u = rand_part(rng, rng.choice([4, 8, 14]), rng.choice([3, 9, 20]))
    if rng.random() < 0.6:      # contained
        l = sorted((rng.randint(0, a) for a in u), reverse=True)
        l = [min(a, b) for a, b in zip(l, u) if a]
        l = [a for a in l if a]
        if rng.random() < 0.3 and u:
            l = u[:rng.randint(0, len(u))]
    else:
        l = rand_part(rng, 8, 9)
        if rng.random() < 0.6:
            l = list(u) + [1] * rng.randint(0, 2)
            if l and rng.random() < 0.7:
                j = rng.randrange(len(l))
                if j == 0 or l[j - 1] > l[j]:
                    l[j] += 1
    a, b = list(l), list(u)
    v, bad = rec.call(skew_partition_height, a, b)
    rec.emit('skew', l=l, u=u, res=bad or ({"kind": "int", "v": v} if isinstance(v, int) else {"kind": "odd", "text": repr(v)}),
             kept=a == l and b == u)


def add_hooks(rng, m, k):
    """A partition from which several hooks can be removed: beads moved up."""
    r = rng.randint(1, m + k + 2)
    L = rng.randint(1, m + 2)
    base = sorted((rng.randint(0, k) for _ in range(L)), reverse=True)
    B = [base[j] + L - 1 - j for j in range(L)]
    for _ in range(rng.randint(1, 4)):
        j = rng.randrange(L)
        if max(B) < B[j] + r and B[j] + r not in B:
            B[j] += r
    B.sort(reverse=True)
    l = [B[j] - (L - 1 - j) for j in range(L)]
    return [a for a in l if a], r, m, k


def rim_event(rec, rng, l, r, R, C):
    from schubertpy import Partition
    if len(l) <= R and (not l or l[0] <= C):
        return
    p = Partition(list(l) + ([0] if rng.random() < 0.04 else []))
    before = list(p.partition)
    v, bad = rec.call(p.remove_rim_hooks, r, (R, C))
    res = bad
    if bad is None:
        try:
            x, c, h = v
            part = [] if x == 0 else [a for a in x.partition if a]
            res = {"kind": "rim", "part": part, "count": int(c), "height": int(h)}
            if not isinstance(x, Partition) and x != 0:
                res = {"kind": "odd", "text": repr(v)}
        except Exception:
            res = {"kind": "odd", "text": repr(v)[:200]}
    rec.emit('rim', l=list(l), r=r, rows=R, cols=C, res=res, kept=p.partition == before)


# ---- C18 ---------------------------------------------------------------------

ALLFORMS = ['text', 'text', 'text', 'sympy', 'lc', 'lctext', 'lcexpr']


def spell_event(rec, rng, v, gi, name, fn, e, d=1, listok=True, count=5):
    """The same call with the argument in several forms."""
    forms = [rng.choice(ALLFORMS) for _ in range(count)] + ['text']
    if d == 1 and e["k"] == "S":
        forms += ['schur'] + (['list'] if listok and (name != 'LinearCombination' or is_part(e["l"])) else [])
    res, kept, seen = [], True, []
    for f in forms:
        a, _, probe = build(rng, e, d, f)
        before = probe()
        r, val = rec.poly(fn, a)
        res.append(r)
        kept = kept and before == probe()
        seen.append(str(a)[:80])
    rec.emit('spell', v=list(v), call=name, args=[e, d], forms=forms, shown=seen, res=res, kept=kept)


def gen_spelling(rec, rng, pid, tier, i, n):
    from schubertpy import LinearCombination, Schur
    quick = tier == 'quick'
    cat = va.catalogue(ALL, 2, 60 if quick else 200, maxN=14)
    # long parts: few rows, so that there are not too many classes
    far = [('Gr', 1, rng.randint(90, 240)), ('IG', 1, 2 * rng.randint(45, 120)), ('OG', 1, 2 * rng.randint(45, 120) + 1),
           ('OG', 1, 2 * rng.randint(45, 120)), ('Gr', 2, rng.randint(90, 110))]
    for v in rng.sample(cat, 14 if quick else 80) + rng.sample(far, 1 if quick else 5):
        if rec.over():
            return
        obj = make(v)
        gi = rec.gr(*v)
        k = va.params(*v)[1]
        C = va.classes(*v) if va.count(*v) < 400 else [va.random_label(rng, *v) for _ in range(60)]
        qn = qnames(v)
        sp = va.specials(*v)
        I = [random_index(rng, v) for _ in range(4)]
        P = [pair_label(rng.choice(C), k) for _ in range(4)]
        small = [l for l in C if sum(l) <= max(3, va.dim(*v) // 2)]
        for _ in range(2 if quick else 6):
            d = rng.choice([1, 1, 1, 2, 3])
            lin = linear(rng, C, qn=qn) if rng.random() < 0.6 else al.S(rng.choice(C))
            pol = polynomial(rng, small, maxterms=2, maxfactors=2, qn=qn, maxdeg=va.dim(*v))
            oth = build(rng, linear(rng, small, nterms=1, qn=()))[0]
            p = rng.choice(sp)
            ops = [('pieri', lambda a: obj.pieri(p, a), lin), ('qpieri', lambda a: obj.qpieri(p, a), lin),
                   ('mult1', lambda a: obj.mult(a, oth), rng.choice([lin, pol])), ('mult2', lambda a: obj.mult(oth, a), lin),
                   ('qmult1', lambda a: obj.qmult(a, oth), rng.choice([lin, pol])), ('qmult2', lambda a: obj.qmult(oth, a), lin),
                   ('act1', lambda a: obj.act(a, oth), spec_poly(rng, v, va.dim(*v))), ('act2', lambda a: obj.act('S[1]^2', a), lin),
                   ('qact1', lambda a: obj.qact(a, oth), spec_poly(rng, v, va.dim(*v))), ('qact2', lambda a: obj.qact('S[1]*S[1]', a), lin),
                   ('giambelli', obj.giambelli, pol), ('qgiambelli', obj.qgiambelli, rng.choice([pol, lin])),
                   ('toS', obj.toS, pol), ('qtoS', obj.qtoS, pol), ('dualize', obj.dualize, lin),
                   ('part2index', obj.part2index, lin), ('index2part', obj.index2part, linear(rng, I, qn=qn)),
                   ('type_swap', lambda a: obj.type_swap(a, k), lin), ('miami_swap', obj.miami_swap, lin)]
            if v[0] != 'Gr':
                ops += [('part2pair', obj.part2pair, lin), ('pair2part', obj.pair2part, linear(rng, P, qn=qn)),
                        ('pair2part', obj.pair2part, al.S(rng.choice(P)))]
            elif va.count(*v) <= 25:
                ops.append(('qmult_rh', lambda a: obj.qmult_rh(a, oth), lin))
            if va.dim(*v) > 80:     # products in such varieties are slow
                ops = [o for o in ops if o[0] in ('pieri', 'dualize', 'part2index', 'index2part', 'type_swap', 'miami_swap',
                                                  'part2pair', 'pair2part') or v[1] == 1 and o[0] == 'qpieri']
                for _ in range(4):
                    name, fn, _e = rng.choice(ops)
                    if name != 'pair2part' and name != 'index2part':
                        spell_event(rec, rng, v, gi, name, fn, al.S(rng.choice(C)))
            for name, fn, e in (ops if not quick else rng.sample(ops, min(len(ops), 9))):
                if rec.over():
                    return
                spell_event(rec, rng, v, gi, name, fn, e, d)
    # text round trips
    for _ in range(250 if quick else 3000):
        if rec.over():
            return
        e, d = rand_expr(rng), rng.choice([1, 1, 1, 1, 2, 3, 6])
        a, f, probe = build(rng, e, d, rng.choice(ALLFORMS))
        x, bad = rec.call(LinearCombination, a)
        res = bad
        if bad is None:
            s, bad = rec.call(str, x)
            res, y = (bad, None) if bad else rec.poly(LinearCombination, s)
            if res.get("kind") == "poly" and str(y) != s:
                z, _ = rec.poly(LinearCombination, str(y))
                rec.emit('spell', v=[], call='text', args=[e, d], forms=[f], shown=[s, str(y)], res=[res, z])
        rec.emit('arith', a=arg(e, d), what='round-trip', form=f, res=res)
        spell_event(rec, rng, [], 0, 'LinearCombination', LinearCombination, e, d, count=3)


def rand_labels(rng, n=5):
    out = []
    for _ in range(n):
        r = rng.random()
        l = rand_part(rng, 5, rng.choice([4, 9, 13, 40, 40, 130, 1200]))
        if r < 0.2 and l:
            l = l + [0]
        elif r < 0.3:
            l = sorted(rng.sample(range(1, 15), rng.randint(1, 4)))
        elif r < 0.4:
            l = [rand_part(rng, 3, 4, 0.3), rand_part(rng, 3, 4, 0.3)]
        out.append(l)
    if any(l and isinstance(l[0], list) for l in out):
        # a polynomial is over labels of one kind
        out = [l for l in out if not (l and isinstance(l[0], list))] or [[1]]
    return out


def rand_expr(rng):
    labs = rand_labels(rng, rng.randint(1, 4))
    qn = rng.choice([(), (1,), (2, 3), (1,)])
    if rng.random() < 0.05:
        labs = rand_labels(rng, rng.randint(8, 20))
        return linear(rng, labs, nterms=len(labs), qn=qn)
    r = rng.random()
    if r < 0.45:
        return linear(rng, labs, qn=qn)
    e = polynomial(rng, labs, maxterms=3, maxfactors=2, qn=qn)
    if r < 0.6:
        f = linear(rng, labs, nterms=2, qn=qn)
        e = rng.choice([al.mul(f, linear(rng, labs, nterms=2, qn=())), al.power(f, 2), al.sub(e, f),
                        al.add(e, al.neg(f)), al.mul(al.num(coef(rng)), e)])
    return e


# ---- C19 ---------------------------------------------------------------------

class Arith:
    """Random programs over library values; every value is paired with the tree
    it must denote."""

    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.pool = []

    def leaf(self):
        from schubertpy import LinearCombination, Schur
        import sympy as sp
        rng = self.rng
        l = rng.choice(self.labs)
        r = rng.random()
        if r < 0.3:
            return 'lc', LinearCombination(list(l)) if is_part(l) and rng.random() < 0.3 else \
                LinearCombination(al.label_text(l)), al.S(l), 1
        if r < 0.5:
            return 'schur', Schur(list(l)), al.S(l), 1
        if r < 0.65:
            e, d = linear(rng, self.labs, qn=(1,)), rng.choice([1, 1, 1, 2, 3])
            return 'lc', build(rng, e, d, rng.choice(['lc', 'lctext', 'lcexpr']))[0], e, d
        if r < 0.72:
            return 'sym', Schur(list(l)).symbol(), al.S(l), 1
        if r < 0.78:
            return 'sym', sp.Symbol('q'), al.qv(1), 1
        if r < 0.86:
            c = rng.choice([2, 3, -1, 5, 0, -4, 1])
            return rng.choice([('int', c, al.num(c), 1), ('lc', LinearCombination(c), al.num(c), 1)])
        if r < 0.91:
            c = rng.choice([2, -3, 7])
            return 'sym', sp.Integer(c), al.num(c), 1
        if r < 0.96:
            c, d = rng.choice([(1, 2), (3, 2), (-2, 3), (5, 4), (-1, 6)])
            x = sp.Rational(c, d)
            return rng.choice([('sym', x, al.num(c), d), ('lc', LinearCombination(x), al.num(c), d)])
        c, d = rng.choice([(1, 2), (-3, 2), (1, 4), (5, 2), (2, 1), (-9, 2), (-29, 4), (37, 4), (-201, 2), (1001, 8), (3, 1)])
        return rng.choice([('int', c / d, al.num(c), d), ('lc', LinearCombination(c / d), al.num(c), d)])

    def binary(self, op, x, y):
        """(function, kind of the result) or None when unsupported"""
        kx, ky = x[0], y[0]
        if op == 'pow':
            if ky != 'int' or y[1] not in range(9):
                return None
            return (lambda a, b: a ** b), {'lc': 'lc', 'schur': 'sym', 'sym': 'sym'}.get(kx)
        f = {'add': lambda a, b: a + b, 'mul': lambda a, b: a * b, 'sub': lambda a, b: a - b}[op]
        if kx == ky == 'int' or (kx in ('int', 'sym') and ky in ('int', 'sym')):
            return f, 'sym' if 'sym' in (kx, ky) else None
        if kx == 'lc' and ky in ('lc', 'int', 'sym'):
            return f, 'lc'
        if ky == 'lc' and kx in ('int', 'sym'):
            return f, 'lc'
        if op in ('add', 'mul'):
            if kx == 'schur' and ky in ('schur', 'int', 'sym', 'lc'):
                return f, 'sym' if ky != 'lc' else 'sym'
            if ky == 'schur' and kx in ('int', 'sym'):
                return f, 'sym'
        return None

    def run(self, steps):
        rec, rng = self.rec, self.rng
        self.labs = [l for l in rand_labels(rng, 3)]
        self.pool = [self.leaf() for _ in range(4)]
        for _ in range(steps):
            x, y = rng.choice(self.pool), rng.choice(self.pool)
            if rng.random() < 0.3:
                y = self.leaf()
            op = rng.choice(['add', 'add', 'mul', 'sub', 'sub', 'pow'])
            if op == 'pow':
                c = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
                y = ('int', c, al.num(c), 1)
            b = self.binary(op, x, y)
            if b is None or b[1] is None:
                continue
            f, kind = b
            tree, d = combined(op, x, y)
            if size(tree) > 60 or norm(tree) * d * d > 10 ** 8:
                continue
            bx, by = snapshot(x[1]), snapshot(y[1])
            res, val = rec.poly(f, x[1], y[1])
            extra = {"islc": type(val).__name__ == 'LinearCombination'} if kind == 'lc' else {}
            rec.emit('arith', a=arg(tree, d), what=op, types=[x[0], y[0]], res=res,
                     kept=bx == snapshot(x[1]) and by == snapshot(y[1]), **extra)
            if val is None or res.get("kind") != "poly" or len(res["t"]) > 25:
                continue
            self.pool.append((kind, val, tree, d))
            # every earlier value still denotes what it did
            if rng.random() < 0.3:
                k, w, t, dt = rng.choice([x for x in self.pool if x[0] != 'int'])
                r, _ = rec.poly(lambda: w)
                rec.emit('arith', a=arg(t, dt), what='kept value', types=[k], res=r)


def combined(op, x, y):
    """The tree of x op y over a common denominator."""
    if op == 'pow':
        return al.power(x[2], y[1]), x[3] ** y[1]
    if op == 'mul':
        return al.mul(x[2], y[2]), x[3] * y[3]
    up = lambda t, k: t if k == 1 else al.mul(al.num(k), t)
    return {"add": al.add, "sub": al.sub}[op](up(x[2], y[3]), up(y[2], x[3])), x[3] * y[3]


def snapshot(x):
    from schubertpy import LinearCombination, Schur
    if isinstance(x, LinearCombination):
        return x.expr, str(x)
    if isinstance(x, Schur):
        return list(x.p), str(x)
    return x


def size(t):
    return 1 + sum(size(x) for x in (t.get("a") or [t[k] for k in ("x", "y") if isinstance(t.get(k), dict)])) * (
        t["e"] if t["k"] == "pow" else 1)


def norm(t):
    """Bound for the coefficients of the polynomial."""
    k = t["k"]
    if k == "n":
        return max(1, abs(t["v"]))
    if k in ("add", "sub"):
        return sum(norm(x) for x in (t.get("a") or [t["x"], t["y"]]))
    if k == "mul":
        r = 1
        for x in t["a"]:
            r *= norm(x)
        return r
    if k == "pow":
        return norm(t["x"]) ** t["e"]
    return norm(t["x"]) if k == "neg" else 1


def is_part(l):
    return all(isinstance(x, int) and x >= 0 for x in l) and all(a >= b for a, b in zip(l, l[1:]))


def gen_arith(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    al.FLOATS[0] = True
    for _ in range(200 if quick else 1500):
        if rec.over():
            return
        Arith(rec, rng).run(10)
    for _ in range(400 if quick else 4000):
        if rec.over():
            return
        apply_event(rec, rng)


def apply_event(rec, rng):
    from schubertpy import LinearCombination, Schur
    e, d = rand_expr(rng), rng.choice([1, 1, 1, 2])
    p = al_eval_labels(e)
    images, f = {}, []
    labs = rand_labels(rng, 4)
    for l in p:
        r = rng.random()
        if r < 0.5:
            x = rng.choice([[2, 1], [1], l + [1] if is_part(l) and (not l or l[-1] >= 1) else [3]] + labs)
            t = al.S(x)
            images[tuple(l)] = rng.choice([lambda x=x: Schur(list(x)), lambda x=x: LinearCombination(al.label_text(x)),
                                           lambda x=x: Schur(list(x)).symbol()])
        elif r < 0.85:
            t = linear(rng, labs, qn=(1,), nterms=rng.choice([1, 2]))
            images[tuple(l)] = rng.choice([lambda t=t: build(rng, t, 1, 'lc')[0], lambda t=t: build(rng, t, 1, 'sympy')[0]])
        else:
            c = rng.choice([0, 0, 1, 2, -1, -1, -2])
            t = al.num(c)
            import sympy as sp
            images[tuple(l)] = rng.choice([lambda c=c: c, lambda c=c: LinearCombination(c), lambda c=c: sp.Integer(c)])
        f.append({"l": l, "x": t})
    if norm(replaced(e, {tuple(x["l"]): x["x"] for x in f})) * d > 10 ** 8:
        return
    method = rng.choice(['apply', 'apply', 'apply2'])
    scribble = rng.random() < 0.3

    def func(lam):
        v = images[tuple(lam)]()
        if scribble and isinstance(lam, list):
            lam.append(99)      # the function owns the list it is given
        return v
    a, form, probe = build(rng, e, d, rng.choice(['lc', 'lctext', 'lcexpr']))
    before = probe()
    res, _ = rec.poly(lambda: getattr(a, method)(func))
    rec.emit('apply', a=arg(e, d), f=f, method=method, form=form, res=res, kept=before == probe())


def replaced(t, f):
    """The tree with trees in place of symbols."""
    if t["k"] == "S":
        return f.get(tuple(t["l"]), t)
    out = dict(t)
    for k in ("x", "y"):
        if isinstance(t.get(k), dict):
            out[k] = replaced(t[k], f)
    if "a" in t:
        out["a"] = [replaced(x, f) for x in t["a"]]
    return out


def al_eval_labels(e):
    out = []

    def go(t):
        if t["k"] == "S":
            if list(t["l"]) not in out:
                out.append(list(t["l"]))
        for x in t.get("a") or [t[k] for k in ("x", "y") if isinstance(t.get(k), dict)]:
            go(x)
    go(e)
    return out


# ---- C20 ---------------------------------------------------------------------

def expansion_record(v):
    import sympy as sp
    if isinstance(v, tuple):
        v = [v]
    out = []
    try:
        for c, l in v:
            r = observe_scalar(c)
            if r.get("kind") != "poly":
                return {"kind": "odd", "text": repr(v)[:200]}
            out.append({"c": r, "l": list(l)})
        return {"kind": "expansion", "v": out}
    except Exception:
        return {"kind": "odd", "text": repr(v)[:200]}


def observe_scalar(c):
    from .recorder import observe
    return observe(c)


QMON = [([0, 0, 0], []), ([1, 0, 0], ['q']), ([2, 0, 0], ['q^2']), ([0, 1, 0], ['q1']), ([0, 0, 1], ['q2']),
        ([0, 1, 1], ['q1*q2']), ([0, 2, 1], ['q1^2*q2']), ([3, 0, 0], ['q^3'])]


NUMBER = -1      # in place of a q-monomial: the term is a number


def qexp(qi):
    return [] if qi == NUMBER else QMON[qi][1]


def coef_text(c, qs, d=1):
    if not qs:
        return str(Fraction(c, d))
    if d > 1:
        c = Fraction(c, d)
        t = coef_text(c.numerator, qs)
        return t if c.denominator == 1 else '%s/%d' % (t, c.denominator)
    if c == 1:
        return qs[0]
    if c == -1:
        return '-' + qs[0]
    return '%d*%s' % (c, qs[0])


def expansion_case(rng):
    """Distinct (partition, q-monomial) terms with nonzero coefficients."""
    labs = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 8]) if rng.random() < 0.95 else rng.randint(9, 18)):
        l = rand_part(rng, 4, rng.choice([3, 6, 12]))
        if rng.random() < 0.15 and l:
            l.append(0)
        labs.append(l)
    if rng.random() < 0.15:
        big = rng.choice([90, 130, 1100])
        labs += [rand_part(rng, 3, big) for _ in range(rng.randint(1, 4))]
    terms = {}
    for l in labs:
        qi = 0 if rng.random() < 0.5 else rng.randrange(len(QMON))
        terms[(tuple(l), qi)] = rng.choice([1, 1, 1, -1, 2, 3, -2, 12, 100])
        if rng.random() < 0.1:
            terms[(tuple(l), rng.randrange(len(QMON)))] = rng.choice([1, 2, -1])
    if rng.random() < 0.25:     # a plain number: a multiple of the unit
        terms[((), NUMBER)] = rng.choice([1, -1, 2, -2, 5, -3, 12, -40, 100])
    return terms


def term_tree(l, qi, c):
    if qi == NUMBER:
        return al.num(c)
    f = []
    if c != 1:
        f.append(al.num(c))
    for j, x in enumerate(QMON[qi][0]):
        if x:
            f.append(al.qv(j + 1) if x == 1 else al.power(al.qv(j + 1), x))
    f.append(al.S(list(l)))
    return f[0] if len(f) == 1 else al.mul(*f)


def gen_expansion(rec, rng, pid, tier, i, n):
    from schubertpy import LinearCombination
    quick = tier == 'quick'
    for _ in range(220 if quick else 3500):
        if rec.over():
            return
        terms = expansion_case(rng)
        e = al.add(*[term_tree(l, qi, c) for (l, qi), c in terms.items()])
        d = 1 if rng.random() < 0.75 else rng.choice([2, 2, 3, 4, 7])
        incq = rng.random() < 0.6
        kept = {t: c for t, c in terms.items() if incq or t[1] in (0, NUMBER)}
        a, form, probe = build(rng, e, d, rng.choice(['lc', 'lctext', 'lcexpr']))
        before = probe()
        v, bad = rec.call(a.schur_expansion, include_q=incq) if rng.random() < 0.8 or not incq else rec.call(a.schur_expansion)
        rec.emit('expansion', a=arg(e, d), q=incq, terms=len(kept), form=form,
                 res=bad or expansion_record(v), kept=before == probe())
        # drawing: only when the order is determined
        if len({l for l, _ in kept}) == len(kept) and kept and max((l[0] for l, _ in kept if l), default=0) <= 12:
            v, bad = rec.call(a.draw_ascii_partition, include_q=incq)
            want = [{"c": coef_text(c, qexp(qi), d), "l": list(l)} for (l, qi), c in sorted(kept.items())]
            rec.emit('draw', terms=want, a=arg(e, d), q=incq, res=bad or {"kind": "lines", "v": rec.stdout.split('\n')[:-1]},
                     kept=before == probe())
    # products and powers are rejected
    for _ in range(60 if quick else 800):
        if rec.over():
            return
        terms = expansion_case(rng)
        labs = [l for l, _ in terms] + [(2,), (1, 1)]
        x, y = rng.choice(labs), rng.choice(labs)
        bad_term = rng.choice([al.mul(al.S(list(x)), al.S(list(y))), al.power(al.S(list(x)), rng.choice([2, 3])),
                               al.mul(al.num(3), al.power(al.S(list(x)), 2)),
                               al.mul(al.power(al.S(list(x)), 2), al.S(list(y))),
                               al.mul(al.S(list(x)), al.add(al.S(list(y)), al.S([7, 3])))])
        incq = rng.random() < 0.7
        if incq and rng.random() < 0.4:
            bad_term = al.mul(al.qv(1), bad_term)
        parts = [bad_term]
        if rng.random() < 0.7:
            parts += [term_tree(l, qi, c) for (l, qi), c in terms.items()]
        rng.shuffle(parts)
        e = al.add(*parts)
        a, form, probe = build(rng, e, 1, rng.choice(['lc', 'lctext', 'lcexpr']))
        before = probe()
        v, bad = rec.call(a.schur_expansion, include_q=incq)
        rec.emit('expansion', a=arg(e), q=incq, terms=0, form=form, res=bad or expansion_record(v),
                 kept=before == probe())
    # expansions of what the library computed
    from .gen_products import rec_ast
    cat = va.catalogue(ALL, 4, 40, maxN=12)
    for v in rng.sample(cat, 8 if quick else 60):
        obj = make(v)
        C = va.classes(*v)

        def lin():
            return build(rng, linear(rng, C, rng.choice([1, 2, 3]), qn=qnames(v)), rng.choice([1, 1, 2, 3]))[0]
        sps = va.specials(*v)
        for _ in range(6):
            if rec.over():
                return
            fn = rng.choice([lambda: obj.qmult(list(rng.choice(C)), list(rng.choice(C))), lambda: obj.qmult(lin(), lin()),
                             lambda: obj.mult(lin(), lin()), lambda: obj.qpieri(rng.choice(sps), lin()),
                             lambda: obj.qact(lin(), lin()) if v[0] == 'Gr' else obj.pieri(rng.choice(sps), lin()),
                             lambda: obj.qtoS(obj.qgiambelli(lin())), lambda: obj.dualize(lin()),
                             lambda: obj.qmult(lin(), lin()) + obj.qmult(lin(), lin()), lambda: obj.qmult(lin(), lin()) * 3])
            res, val = rec.poly(fn)
            if val is None or res.get("kind") != "poly" or not res["t"]:
                continue
            e = rec_ast(res)
            incq = rng.random() < 0.5
            x, bad = rec.call(val.schur_expansion, include_q=incq)
            rec.emit('expansion', a=arg(e, res["den"]), q=incq, v=list(v), form='product',
                     terms=sum(1 for t in res["t"] if incq or not any(t["q"])), res=bad or expansion_record(x))


# ---- C21 ---------------------------------------------------------------------

def gen_tables(rec, rng, pid, tier, i, n):
    from schubertpy import MultTable, QMultTable
    quick = tier == 'quick'
    cat = va.catalogue(ALL, 1, 12 if quick else 40, maxN=12 if quick else 14, minm=1)
    cat = sorted(cat, key=lambda v: -va.count(*v))
    work = shard(cat, i, n)
    if quick:
        work = work + rng.sample(va.catalogue(ALL, 13, 20, maxN=14), 2)
        if i < 4:
            work = work + rng.sample(va.catalogue([ALL[i % len(ALL)]], 21, 36, maxN=14), 1)
    else:
        work = work + rng.sample(va.catalogue(ALL, 41, 60, maxN=14), 1)
    # many classes with simple products
    chains = [('Gr', 1, rng.randint(30, 50)), ('Gr', 1, rng.randint(60, 80)), ('IG', 1, 2 * rng.randint(14, 20))]
    work += [(v, rng.random() < 0.5) for v in (chains[i - 5:i - 4] if quick and i >= 5 else [] if quick else rng.sample(chains, 1))]
    for v in work:
        both = (False, True)
        if len(v) == 2:
            v, qf = v
            both = (qf,)
        for qf in both:
            if rec.over():
                return
            obj = make(v)
            gi = rec.gr(*v, c=not qf, q=qf)
            t, bad = rec.call(QMultTable if qf else MultTable, obj)
            if bad:
                rec.emit('table', g=gi, v=list(v), qf=qf, rows=[], cols=[], cells=[], res=bad)
                continue
            table_event(rec, v, gi, qf, t, lambda: t.to_matrix(), 'to_matrix')
            table_event(rec, v, gi, qf, t, lambda: [[t.df.iloc[r, c] for c in range(t.df.shape[1])]
                                                    for r in range(t.df.shape[0])], 'df')
            printed_event(rec, v, gi, qf, t, rng.choice([str, repr, lambda x: x.print()]))
            table_event(rec, v, gi, qf, t, lambda: t.to_matrix(), 'again')


def printed_event(rec, v, gi, qf, t, fn):
    """The table as text: rows of cells separated by two blanks or more."""
    import pandas as pd
    from .recorder import observe
    with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', 10 ** 6,
                           'display.max_colwidth', None, 'display.expand_frame_repr', False):
        x, bad = rec.call(fn, t)
    if bad:
        rec.emit('table', g=gi, v=list(v), qf=qf, what='printed', rows=[], cols=[], cells=[], res=bad)
        return
    lines = [ln for ln in (x if isinstance(x, str) else rec.stdout).split('\n') if ln.strip()]
    try:
        cols = re.split(r'\s{2,}', lines[0].strip())
        body = [re.split(r'\s{2,}', ln.strip()) for ln in lines[1:]]
        lab = lambda s: al.lab_list(next(iter(al.read_text(s)))[1][0][0])
        def cell(s):
            p = al.read_text(s)
            return al.record(p)
        rec.emit('table', g=gi, v=list(v), qf=qf, what='printed', rows=[lab(r[0]) for r in body], cols=[lab(c) for c in cols],
                 cells=[[cell(c) for c in r[1:]] for r in body])
    except (al.NotPolynomial, IndexError):
        rec.emit('table', g=gi, v=list(v), qf=qf, what='printed', rows=[[-1]], cols=[], cells=[])


def table_event(rec, v, gi, qf, t, cells, what):
    from .recorder import observe
    m, bad = rec.call(cells)
    rows, b2 = rec.call(lambda: labels_of(list(t.df.index)))
    cols, b3 = rec.call(lambda: labels_of(list(t.df.columns)))
    if bad or b2 or b3 or rows["kind"] != "labels" or cols["kind"] != "labels":
        rec.emit('table', g=gi, v=list(v), qf=qf, what=what, rows=[[-1]], cols=[], cells=[])
        return
    rec.emit('table', g=gi, v=list(v), qf=qf, what=what, rows=rows["v"], cols=cols["v"],
             cells=[[observe(x) for x in r] for r in m])


# ---- C22 ---------------------------------------------------------------------

def gen_schurpoly(rec, rng, pid, tier, i, n):
    from schubertpy.utils.mix import SchurPol
    from schubertpy import Schur
    quick = tier == 'quick'
    cases = []
    for nv in range(1, 6 if quick else 7):
        for l in va.kstrict(5, min(nv + 1, 5), 5):
            if nv * 3 + sum(l) <= (20 if quick else 26):
                cases.append((list(l), nv))
    cases = shard(cases, i, n)
    rng.shuffle(cases)
    extra = []
    for _ in range(12 if quick else 120):
        nv = rng.randint(1, 3)
        extra.append((rand_part(rng, nv + 1, 12, 0.3), nv))
        extra.append((rand_part(rng, 4, 3, 0.5), rng.randint(1, 4)))
    tall = []     # many rows: few tableaux per content, long chains of recursion
    while len(tall) < (20 if quick else 200):
        nv = rng.randint(4, 7)
        l = rand_part(rng, nv, rng.choice([2, 3, 4, 6]))
        if l and rng.random() < 0.5:
            l = l + [l[-1]] * rng.randint(0, nv - len(l))
        if len(l) >= 4 and tableaux(l, nv) <= (250 if quick else 1200):
            tall.append((l, nv))
    wide = []     # many variables
    while len(wide) < (14 if quick else 120):
        nv = rng.randint(8, 13)
        l = rng.choice([lambda: rand_part(rng, 3, 3), lambda: [1] * rng.randint(nv - 3, nv + 2), lambda: [2] + [1] * rng.randint(nv - 3, nv),
                        lambda: [rng.randint(2, 4)], lambda: []])()
        if len(l) > nv or tableaux(l, nv) <= (300 if quick else 1500):
            wide.append((l, nv))
    for l, nv in extra + tall + wide + cases[:70 if quick else 600]:
        if rec.over():
            return
        a = rng.choice([list, tuple])(l)
        before = list(a)
        p, bad = rec.call(SchurPol, nv, a)
        rec.emit('schurpoly', l=l, n=nv, ints=True, form=type(a).__name__, res=bad or poly_record(p, nv),
                 kept=list(a) == before)
        s = Schur(list(l))
        t, bad = rec.call(s.to_polinomial_str, nv)
        rec.emit('schurpoly', l=l, n=nv, ints=True, form='text', res=bad or xtext_record(t, nv), kept=s.p == l)
    for _ in range(40 if quick else 400):
        if rec.over():
            return
        l, nv, ints = rng.choice([
            ([rng.randint(-1, 4) for _ in range(rng.randint(0, 4))], rng.randint(-1, 3), True),
            ([1, 2], 2, True), ([-1], 2, True), ([2, 1], 0, True), ([2, 1], -3, True), ([0, 1], 2, True),
            ([1, 0, 1], 3, True), ([2, -1], 2, True), ([3, 3, 4], 4, True),
            ([1.5, 1], 2, False), ([2.0], 2, False), (['1'], 2, False), ([2, 1], 2.0, False), ([2, 1], '2', False),
            ([2, 1], None, False), ([None], 2, False)])
        before = list(l)
        p, bad = rec.call(SchurPol, nv, l)
        rec.emit('schurpoly', l=l if ints else [], n=nv if ints else 1, ints=ints, shown=repr((nv, l)), form='list',
                 res=bad or (poly_record(p, nv) if ints and nv >= 1 else {"kind": "odd", "text": "accepted"}),
                 kept=l == before)


def tableaux(l, n):
    """Number of semistandard tableaux (hook content formula)."""
    l = list(l) + [0] * (n - len(l))
    a = b = 1
    for i in range(n):
        for j in range(i + 1, n):
            a *= l[i] - l[j] + j - i
            b *= j - i
    return a // b


def poly_record(p, nv):
    import sympy as sp
    try:
        p = p if isinstance(p, sp.Poly) else sp.Poly(p, *sp.symbols(['x_%d' % j for j in range(1, nv + 1)]))
        gens = [str(g) for g in p.gens]
        if gens != ['x_%d' % j for j in range(1, nv + 1)]:
            return {"kind": "odd", "text": repr(gens)}
        out = [[list(m), int(c)] for m, c in p.terms() if c != 0]
        if any(c != int(c) for _, c in p.terms()):
            return {"kind": "odd", "text": str(p)}
        return {"kind": "xpoly", "v": out}
    except Exception as ex:
        return {"kind": "odd", "text": repr(ex)[:200]}


def xtext_record(t, nv):
    """sums of products of integers and powers x<i>^<e>"""
    if not isinstance(t, str):
        return {"kind": "odd", "text": repr(t)}
    out = {}
    s = t.replace(' ', '')
    if s == '':
        return {"kind": "odd", "text": t}
    for sign, mono in re.findall(r'([+-]?)([^+-]+)', s):
        c, exps = -1 if sign == '-' else 1, [0] * nv
        for f in mono.split('*'):
            m = re.fullmatch(r'x(\d+)(?:\^(\d+))?', f)
            if m and 1 <= int(m.group(1)) <= nv:
                exps[int(m.group(1)) - 1] += int(m.group(2) or 1)
            elif f.isdigit():
                c *= int(f)
            else:
                return {"kind": "odd", "text": t[:200]}
        out[tuple(exps)] = out.get(tuple(exps), 0) + c
    return {"kind": "xpoly", "v": [[list(e), c] for e, c in sorted(out.items()) if c]}


# ---- C23 ---------------------------------------------------------------------

def gen_domain(rec, rng, pid, tier, i, n):
    from schubertpy import LinearCombination, Partition, Schur
    quick = tier == 'quick'
    args = [(f, m, N) for f in ('Gr', 'IG', 'OG') for m in range(-2, 9) for N in range(-2, 15 if quick else 19)]
    for f, m, N in shard(args, i, n):
        ctor_event(rec, f, m, N, True)
    for _ in range(30 if quick else 200):
        f = rng.choice(['Gr', 'IG', 'OG'])
        ctor_event(rec, f, rng.randint(0, 60), rng.randint(0, 120), True)
        m, N = rng.choice([(2.0, 4), (1, 4.0), ('1', 4), (1, '4'), (None, 4), (1, None), ([1], 4), (1.5, 6), (2, [6]),
                           (1, (4,)), (2.0, 6.0)])
        ctor_event(rec, f, m, N, False)
    cat = va.catalogue(ALL, 2, 40, maxN=12)
    for v in rng.sample(cat, 10 if quick else 80):
        if rec.over():
            return
        obj = make(v)
        gi = rec.gr(*v)
        t, k = va.params(*v)[:2]
        C = va.classes(*v)
        anyexc = ["Exception", "ValueError", "TypeError", "NotImplementedError", "AttributeError"]

        def raises(law, names, fn, *a):
            x, bad = rec.call(fn, *a)
            rec.emit('raises', v=list(v), names=names, law=law, shown=[repr(z)[:80] for z in a],
                     res=bad or {"kind": "odd", "text": repr(x)[:100]})
        e = linear(rng, C)
        if t == 'A':
            for fn in (obj.part2pair, obj.pair2part):
                raises('pairs-on-ordinary', anyexc, fn, build(rng, rng.choice([e, al.S(rng.choice(C))]))[0])
                raises('pairs-on-ordinary', anyexc, fn, rng.choice([[], [], [0], 'S[]', Schur([]), LinearCombination(0), 0, 1,
                                                                    list(rng.choice(C)), Schur(list(rng.choice(C)))]))
        if t != 'D':
            for l in rng.sample(C, min(3, len(C))):
                raises('types-outside-type-D', ["ValueError"], obj.schub_type, rng.choice([list, Schur])(list(l)))
        nonspecial = [l for l in C if len(l) > 1 and not (t == 'D' and len(l) == 2 and l[1] == 0)]
        if t != 'D':
            nonspecial += [[1, 0], [2, 0]]
        for _ in range(4):
            if not nonspecial:
                break
            l = rng.choice(nonspecial)
            x = rng.choice([al.S(l), al.add(al.S([1]), al.S(l)), al.mul(al.num(3), al.S(l)), al.mul(al.S([1]), al.S(l)),
                            al.power(al.S(l), 2), al.add(al.mul(al.qv(1), al.S(l)), al.num(2))])
            a = build(rng, x, 1, rng.choice(['text', 'sympy', 'lc']))[0]
            b = build(rng, linear(rng, C))[0]
            raises('operator-not-special', ["ValueError"], rng.choice([obj.act, obj.qact]), a, b)
        for bad_l in ([1, 2], [-1], [2, -1], [0, 1], [1.5], ['1'], [3, 1, 2]):
            fn = rng.choice([LinearCombination, Partition, LinearCombination])
            raises('list-not-a-partition', ["ValueError"], fn, list(bad_l))
            if rng.random() < 0.5:
                raises('list-not-a-partition', ["ValueError"],
                       rng.choice([lambda z: obj.mult(z, 'S[1]'), lambda z: obj.qmult('S[1]', z), obj.giambelli, obj.toS,
                                   obj.dualize, lambda z: obj.qpieri(1, z), lambda z: obj.act('S[1]', z)]), list(bad_l))
        clone_events(rec, rng, obj, v, gi, C)


def ctor_event(rec, fam, m, N, ints):
    g, bad = rec.call(cls_of(fam), m, N)
    if bad is None:
        d, bad = rec.call(g.get_type_data)
    rec.emit('ctor', fam=fam, m=m if ints else 0, N=N if ints else 0, ints=ints, shown=repr((m, N)), what='typedata',
             res=bad or type_data(d))


def clone_events(rec, rng, obj, v, gi, C):
    from .gen_products import product_event, pieri_event
    if rng.random() < 0.5:
        rec.call(obj.qmult, list(rng.choice(C)), list(rng.choice(C)))
    c, bad = rec.call(obj.clone)
    if bad:
        rec.emit('info', g=gi, v=list(v), what='typedata', res=bad)
        return
    describe_all(rec, c, v, gi, classes=True)
    e = linear(rng, C, qn=qnames(v))
    sp = va.specials(*v)
    if sp:
        for qf in (False, True):
            pieri_event(rec, rng, c, v, gi, rng.choice(sp), e, 1, qf)
    rec.emit('raises', v=list(v), names=["same-class"], law='clone-class',
             res={"kind": "exc", "t": "same-class" if type(c) is type(obj) else type(c).__name__})
    rec.emit('raises', v=list(v), names=["other-object"], law='clone-identity',
             res={"kind": "exc", "t": "other-object" if c is not obj else "same-object"})
    # the clone is re-initialised: the original does not notice
    w = rng.choice([x for x in va.catalogue(['Gr', 'IG', 'OGodd', 'OGeven'], 2, 40, maxN=12) if x[0] == v[0] and x != v])
    rec.call(c.__init__, w[1], w[2])
    describe_all(rec, obj, v, gi, classes=True)
    if sp:
        for qf in (False, True):
            pieri_event(rec, rng, obj, v, gi, rng.choice(sp), e, 1, qf)
    # and the other way round
    c2 = obj.clone()
    obj.__init__(w[1], w[2])
    describe_all(rec, c2, v, gi, classes=False)
    if sp:
        pieri_event(rec, rng, c2, v, gi, rng.choice(sp), e, 1, True)


# ---- C24 ---------------------------------------------------------------------

def gen_schur(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    for _ in range(60 if quick else 900):
        if rec.over():
            return
        schur_event(rec, rng)
    for _ in range(120 if quick else 1500):
        if rec.over():
            return
        draw_events(rec, rng, quick)


def schur_event(rec, rng):
    from schubertpy import Schur, LinearCombination
    from schubertpy.schur import unique_schur_list, toSchur
    labs = [rand_part(rng, 4, rng.choice([2, 3, 12, 30]), 0.2) for _ in range(rng.randint(1, 5))]
    pairs = rng.random() < 0.2      # labels of pairs of partitions
    if pairs:
        labs = [[rand_part(rng, 3, 4, 0.2), rand_part(rng, 3, 12, 0.2)] for _ in range(rng.randint(1, 4))]
        labs += [[list(b), list(a)] for a, b in labs[:1]]
    labs += [list(rng.choice(labs)) for _ in range(2)]
    if rng.random() < 0.5 and not pairs:
        labs.append(rng.choice(labs) + [0])
        labs.append([1, 2] if rng.random() < 0.5 else [12])
        labs.append([1, 12] if rng.random() < 0.5 else [11, 2])
    rng.shuffle(labs)

    def mk(l):
        r = rng.random()
        if r < 0.4:
            return Schur(list(l))
        if r < 0.5:
            return Schur(tuple(l))
        if r < 0.6:
            return Schur(Schur(list(l)))
        if r < 0.8:
            return Schur(al.label_text(l))
        return Schur(al.to_sympy(al.S(l)))

    def go():
        S = [mk(l) for l in labs]
        first = [(list(s.p), str(s)) for s in S]
        back = []
        for s in S:
            back.append([list(x.p) for x in (Schur(s.symbol()), Schur(str(s)), toSchur(s.symbol()), toSchur(str(s)),
                                             Schur(repr(s)), Schur(s))] + [list(s.partition()), list(s.p)])
        out = {"kind": "schur", "eq": [[bool(a == b) for b in S] for a in S],
               "hash": [hash_id(a) for a in S], "lt": [[bool(a < b) for b in S] for a in S],
               "text": [str(a) for a in S], "back": back, "sorted": [list(a.p) for a in sorted(S)],
               "uniq": [list(a.p) for a in unique_schur_list(list(S))]}
        ne = all((a != b) == (not (a == b)) for a in S for b in S)
        inset = all((a in {b}) == (a == b) for a in S for b in S)
        kept = [(list(s.p), str(s)) for s in S] == first and ne and inset
        return out, kept
    r, bad = rec.call(go)
    if bad:
        rec.emit('schur', labels=labs, pairs=pairs, res=bad)
    else:
        rec.emit('schur', labels=labs, pairs=pairs, res=r[0], kept=r[1])


def hash_id(a):
    return hash(a) % (2 ** 31 - 1)


def latex_boxes(t):
    out = []
    for x, y in re.findall(r'\\node at \((-?[\d.]+)mm, *(-?[\d.]+)mm\)', t):
        x, y = float(x) / 5, -float(y) / 5
        if x != int(x) or y != int(y):
            return None
        out.append([int(x), int(y)])
    return out


def draw_events(rec, rng, quick):
    from schubertpy import Schur, Partition, yd
    l = rand_part(rng, 6, rng.choice([3, 8, 14]), 0.15)
    if rng.random() < 0.2:      # tall, wide, or with many equal rows
        l = rng.choice([rand_part(rng, 30, rng.choice([1, 2, 4]), 0.1), rand_part(rng, 3, 60, 0.1),
                        [rng.randint(1, 6)] * rng.randint(7, 24)])
    s = Schur(list(l))

    def emit(op, res, **kw):
        rec.emit(op, l=l, res=res, kept=list(s.p) == l and str(s) == al.label_text(l), **kw)

    def boxes(fn, what):
        x, bad = rec.call(fn)
        emit('boxes', bad or ({"kind": "boxes", "v": x} if x is not None else {"kind": "odd"}), what=what)
    boxes(lambda: latex_boxes(s.latex()), 'latex')
    boxes(lambda: latex_boxes(s.latex_standalone()), 'latex_standalone')
    if sum(l) <= 40 and rng.random() < 0.35:
        def plot():
            import matplotlib.pyplot as plt
            fig, ax = s.plot_partition()
            out = []
            for p in ax.patches:
                x, y, w, h = p.get_x(), p.get_y(), p.get_width(), p.get_height()
                if (w, h) != (1, 1) or x != int(x) or y != int(y):
                    return None
                out.append([int(x), int(-y)])
            plt.close(fig)
            return out
        boxes(plot, 'plot')
        if rng.random() < 0.2:
            def png():
                fd, name = tempfile.mkstemp(suffix='.png', dir=os.getcwd())
                os.close(fd)
                try:
                    s.export_png(name)
                    with open(name, 'rb') as f:
                        return "png" if f.read(8) == b'\x89PNG\r\n\x1a\n' else "other"
                finally:
                    os.unlink(name)
            x, bad = rec.call(png)
            rec.emit('raises', names=["png"], law='exported-picture', l=l, res=bad or {"kind": "exc", "t": x})
    x, bad = rec.call(s.print_partition)
    emit('lines', bad or {"kind": "lines", "v": rec.stdout.split('\n')[:-1]}, box="[ ]", what='print_partition')
    if rng.random() < 0.4:
        lst = list(l)
        x, bad = rec.call(yd, lst)
        rec.emit('lines', l=l, box="[]", what='yd', res=bad or {"kind": "lines", "v": rec.stdout.split('\n')[1:-1]}, kept=lst == l)
        if l:
            p = Partition(list(l))
            x, bad = rec.call(p.draw)
            rec.emit('lines', l=l, box="[]", what='draw', res=bad or {"kind": "lines", "v": rec.stdout.split('\n')[:-1]},
                     kept=p.partition == l)


# ---- C25 ---------------------------------------------------------------------

def gen_csv(rec, rng, pid, tier, i, n):
    from schubertpy.csv_bijection import check_bijection_with_permutation
    quick = tier == 'quick'
    work = tempfile.mkdtemp(dir=os.getcwd())
    for _ in range(130 if quick else 1800):
        if rec.over():
            return
        rows1 = csv_rows(rng)
        rows2 = [dict(r) for r in rows1]
        r = rng.random()
        if r < 0.5 and rows2:
            other = csv_change(rng, rows2)
            if other:
                rows1[other[0]] = other[1]
        if rng.random() < 0.3 and rows2:
            rows2.append(dict(rng.choice(rows2)))
        if rng.random() < 0.3 and rows1:
            rows1.append(dict(rng.choice(rows1)))
        if rng.random() < 0.1:
            rows1, rows2 = rows2, rows1
        rng.shuffle(rows2)
        f1, f2 = os.path.join(work, 'a.csv'), os.path.join(work, 'b.csv')
        t1 = csv_write(rng, f1, rows1)
        t2 = csv_write(rng, f2, rows2)
        x, bad = rec.call(check_bijection_with_permutation, f1, f2)
        same = open(f1).read() == t1 and open(f2).read() == t2
        rec.emit('csv', rows1=rows1, rows2=rows2, res=bad or as_bool(x), kept=same, shown=[t1[:300], t2[:300]])


def csv_rows(rng):
    out = []
    labs = rand_labels(rng, 4)
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        a, b = (al.label_text(rng.choice(labs)) if rng.random() < 0.93 else rng.choice(['', ' ', 'x', '0']) for _ in range(2))
        x = linear(rng, labs, qn=(1,)) if rng.random() < 0.6 else polynomial(rng, labs, maxterms=3, maxfactors=2, qn=(1,))
        if rng.random() < 0.1:
            x = al.num(rng.choice([0, 1, 3]))
        elif rng.random() < 0.3:
            f = linear(rng, labs, nterms=2, qn=())
            x = rng.choice([al.mul(al.qv(1), f), al.mul(al.num(coef(rng)), f), al.mul(f, linear(rng, labs, nterms=2, qn=())),
                            al.power(f, 2), al.mul(f, al.S(rng.choice(labs))), al.sub(x, f)])
        out.append({"a": a, "b": b, "x": x})
    return out


def csv_text(rng, t):
    """Another text for the same class: the columns compare as text."""
    return rng.choice(['', ' ' + t, t + ' ', t.lower(), t.replace(',', ', '), t.replace('[', '[ '), t.replace('S', 'S '), t + '.', '0' + t])


def csv_change(rng, rows):
    j = rng.randrange(len(rows))
    r = rng.random()
    if r < 0.12:
        f = rng.choice('ab')
        rows[j][f] = csv_text(rng, rows[j][f])
        return
    if r < 0.24:
        # a large coefficient, off by a little
        c, s = rng.choice([1000, 65536, 10 ** 6, 12345678, 2 * 10 ** 8]), rng.choice([1, -1])
        f = rng.choice(rand_labels(rng, 1))
        x = rows[j]["x"] if rng.random() < 0.5 else al.num(1)
        if rng.random() < 0.8 and x["k"] != "n":
            x = al.num(0)
        rows[j]["x"] = al.add(x, al.mul(al.num(s * (c + 1)), al.S(f)))
        other = dict(rows[j])
        other["x"] = al.add(x, al.mul(al.num(s * (c + rng.choice([0, 1, 2, 10]))), al.S(f)))
        return j, other
    r = rng.random()
    if r < 0.3:
        x = rows[j]["x"]
        rows[j]["x"] = rng.choice([al.add(x, al.S([1])), al.neg(x), al.mul(al.num(2), x), al.mul(al.qv(1), x),
                                   al.add(x, al.num(1))])
    elif r < 0.45:
        del rows[j]
    elif r < 0.6:
        rows.append({"a": "S[9]", "b": rows[j]["b"], "x": rows[j]["x"]})
    elif r < 0.8:
        rows[j]["a"], rows[j]["b"] = rows[j]["b"], rows[j]["a"]
    elif r < 0.9 and len(rows) > 1:
        k = rng.randrange(len(rows))
        rows[j]["x"], rows[k]["x"] = rows[k]["x"], rows[j]["x"]
    elif len(rows) > 1:      # one duplicated, one dropped: same number of rows
        rows[j] = dict(rows[(j + 1) % len(rows)])


def multiplied_out(x):
    """The tree with one product over a sum distributed."""
    if x["k"] == "pow" and x["e"] == 2:
        x = al.mul(x["x"], x["x"])
    if x["k"] == "mul":
        for j, f in enumerate(x["a"]):
            if f["k"] == "add":
                rest = x["a"][:j] + x["a"][j + 1:]
                return al.add(*[multiplied_out(al.mul(*(rest + [t]))) for t in f["a"]])
        flat = [g for f in x["a"] for g in (f["a"] if f["k"] == "mul" else [f])]
        return al.mul(*flat)
    return al.add(*[multiplied_out(t) for t in x["a"]]) if x["k"] == "add" else x


def csv_write(rng, path, rows):
    out = []
    sp = al.Spelling(rng)
    extra, quoted = rng.random() < 0.12, rng.random() < 0.12
    for r in rows:
        while rng.random() < 0.1:
            out.append('')
        x = r["x"]
        if rng.random() < 0.3:
            x = multiplied_out(x)
        cells = [r["a"], r["b"], sp.text(x)]
        if extra:
            cells.append(rng.choice(['', '1', 'S[1]']))
        if quoted:
            cells = ['"%s"' % c if rng.random() < 0.5 else c for c in cells]
        out.append(';'.join(cells))
    if rng.random() < 0.2:
        out.append('')
    t = '\n'.join(out)
    if rng.random() < 0.8 and t:
        t += '\n'
    with open(path, 'w', newline='') as f:
        f.write(t)
    return t


# ---- C26 ---------------------------------------------------------------------

def lists_of(v):
    if isinstance(v, (list, tuple)) and all(isinstance(x, (list, tuple)) and al.is_flat(x) for x in v):
        return {"kind": "labels", "v": [list(x) for x in v]}
    return {"kind": "odd", "text": repr(v)[:200]}


def gen_utils(rec, rng, pid, tier, i, n):
    from schubertpy.utils.kstrict import all_kstrict
    from schubertpy.qcalc import part_gen, part_conj
    from schubertpy.partition import part_clip
    quick = tier == 'quick'
    cases = []
    for k in range(0, 7 if quick else 9):
        for rows in range(0, 6 if quick else 7):
            for cols in range(k, 9 if quick else 11):
                if (cols + 1) ** min(rows, 4) <= (7000 if quick else 30000):
                    cases.append((k, rows, cols))
    # the larger ones, drawn at random
    limit = 4000 if quick else 10000
    big = [(k, rows, cols) for k in range(0, 9) for rows in range(4, 11) for cols in range(max(k, 3), 18)
           if 300 < va.kcount(k, rows, cols) <= limit]
    chosen = shard(cases, i, n) + rng.sample(big, min(len(big), 5 if quick else 40))
    for k, rows, cols in chosen:
        if rec.over():
            return
        x, bad = rec.call(all_kstrict, k, rows, cols)
        if bad is None and len(x) > 12000:
            continue
        rec.emit('util', what='all_kstrict', k=k, rows=rows, cols=cols, res=bad or lists_of(x))
    rect = [(r, c) for r in range(0, 15) for c in range(1, 15) if r + c <= (8 if quick else 10) or comb(r + c, c) <= (400 if quick else 1500)]
    for r, c in shard(rect, i, n):
        l = [c] * r
        x, bad = rec.call(part_gen, l)
        rec.emit('util', what='part_gen', rows=r, cols=c, res=bad or lists_of(x), kept=l == [c] * r)
    for _ in range(200 if quick else 3000):
        if rec.over():
            return
        l = rand_part(rng, 8, rng.choice([3, 8, 20]), 0.3)
        a = list(l)
        x, bad = rec.call(lambda: [part_conj(a), part_conj(part_conj(a))])
        rec.emit('util', what='part_conj', l=l, res=bad or lists_of(x), kept=a == l)
        b = list(l) if rng.random() < 0.6 else [rng.choice([0, 0, 1, 2, -1, 5]) for _ in range(rng.randint(0, 6))]
        c = list(b)
        x, bad = rec.call(lambda: [part_clip(c)])
        rec.emit('util', what='part_clip', l=b, res=bad or lists_of(x), kept=b == c)


# ---- C27 ---------------------------------------------------------------------

def gen_sage(rec, rng, pid, tier, i, n):
    from schubertpy import Schur
    quick = tier == 'quick'
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        from schubertsage import conversion as cv
        from sage.combinat.sf.sf import SymmetricFunctions
    sym = cv.sym
    other = [sym.e(), sym.h(), sym.m(), sym.p()]
    for _ in range(120 if quick else 1500):
        if rec.over():
            return
        l = rand_part(rng, 6, rng.choice([2, 5, 12]))
        s = Schur(list(l))

        def go():
            f = cv.schur_to_sage_schur(s)
            mon = f.monomial_coefficients()
            (p, c), = mon.items()
            if c != 1 or f.parent() != cv.S:
                return None
            return [[int(x) for x in p], [int(x) for x in cv.sage_schur_to_schur(f).p]]
        x, bad = rec.call(go)
        rec.emit('sage', l=l, res=bad or ({"kind": "labels", "v": x} if x else {"kind": "odd"}), kept=list(s.p) == l)

        def rev():
            f = cv.S(list(l))
            t = cv.sage_schur_to_schur(f)
            ok = t == Schur(list(l)) and cv.schur_to_sage_schur(t) == f and isinstance(t, Schur)
            return [[int(x) for x in t.p], list(l) if ok else [-1]]
        x, bad = rec.call(rev)
        rec.emit('sage', l=l, res=bad or {"kind": "labels", "v": x}, what='reverse')
        B = rng.choice(other)
        x, bad = rec.call(lambda: cv.sage_schur_to_schur(B(list(l))))
        rec.emit('raises', names=["ValueError"], law='other-basis', l=l, basis=str(B)[-30:],
                 res=bad or {"kind": "odd", "text": str(x)})
        if rng.random() < 0.05:
            from sage.rings.rational_field import QQ
            from sage.rings.integer_ring import ZZ
            R = SymmetricFunctions(rng.choice([QQ, ZZ]))
            x, bad = rec.call(lambda: cv.sage_schur_to_schur(R.h()(list(l))))
            rec.emit('raises', names=["ValueError"], law='other-basis', l=l, basis='h over another ring',
                     res=bad or {"kind": "odd", "text": str(x)})
