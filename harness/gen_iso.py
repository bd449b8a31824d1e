"""Products on isomorphic Grassmannians (C30), judged by Iso.tla; inspection of
expressions (C31)."""
from . import algebra as al
from . import varieties as va
from .gen_products import ALL, qnames, shard
from .inputs import make, linear, polynomial, build, arg


def partners(v):
    """(kind, partner, map on labels, scaling of a label, map on q) as in Iso.tla."""
    fam, m, N = v
    t, k, n, rows, cols = va.params(*v)
    one = lambda l: 1
    same = lambda l: list(l)
    qsame = lambda i: i
    out = []
    if t == 'A' and 0 < m < N:
        out.append(('conjugate', ('Gr', N - m, N), lambda l: [sum(1 for a in l if a > j) for j in range(l[0] if l else 0)],
                    one, qsame))
    if t == 'B' and k == 0:
        out.append(('maximal', ('OG', n + 1, 2 * n + 2), same, one, qsame))
    if t == 'C':
        out.append(('scaling', ('OG', m, N + 1), same, lambda l: 2 ** sum(1 for a in l if a > k), qsame))
        if m == 1:
            out.append(('projective', ('Gr', 1, N), same, one, qsame))
    if t == 'D':
        def swap(l):
            l = list(l)
            if k == 0 or k not in l:
                return l
            return l[:-1] if l[-1] == 0 else l + [0]
        out.append(('swap', v, swap, one, lambda i: {2: 3, 3: 2}.get(i, i)))
    table = EXCEPTIONAL.get(v)
    if table:
        other, pairs = table
        d = {tuple(x): y for x, y in pairs}
        out.append(('exceptional', other, lambda l: list(d[tuple(l)]), one, qsame))
    return out


EXCEPTIONAL = {
    ('IG', 2, 4): (('OG', 1, 5), [([], []), ([1], [1]), ([2], [2]), ([2, 1], [3])]),
    ('OG', 2, 5): (('Gr', 1, 4), [([], []), ([1], [1]), ([2], [2]), ([2, 1], [3])]),
    ('OG', 1, 6): (('Gr', 2, 4), [([], []), ([1], [1]), ([2], [2]), ([2, 0], [1, 1]), ([3], [2, 1]), ([4], [2, 2])]),
    ('OG', 4, 8): (('OG', 1, 8), [([], []), ([1], [1]), ([2], [2]), ([3], [3]), ([2, 1], [3, 0]), ([3, 1], [4]),
                                  ([3, 2], [5]), ([3, 2, 1], [6])]),
}


def image(e, f, c, q):
    """The image of a linear combination, as a syntax tree."""
    k = e["k"]
    if k == 'S':
        s = al.S(f(e["l"]))
        return s if c(e["l"]) == 1 else al.mul(al.num(c(e["l"])), s)
    if k == 'q':
        return al.qv(q(e["i"]))
    if k in ('add', 'mul'):
        return dict(e, a=[image(x, f, c, q) for x in e["a"]])
    if k == 'neg':
        return dict(e, x=image(e["x"], f, c, q))
    if k == 'sub':
        return dict(e, x=image(e["x"], f, c, q), y=image(e["y"], f, c, q))
    if k == 'pow':
        return dict(e, x=image(e["x"], f, c, q))
    return e


def iso_event(rec, rng, v, part, l, e, how):
    kind, w, f, c, q = part
    ox, oy = make(v), make(w)
    gi, hi = rec.gr(*v), rec.gr(*w)
    qf = kind != 'scaling' and rng.random() < 0.65
    e2, m = image(e, f, c, q), f(l)
    if how == 'pieri':
        num = lambda x: -x[0] if len(x) == 2 else x[0]
        fx, fy = (ox.qpieri, oy.qpieri) if qf else (ox.pieri, oy.pieri)
        res, _ = rec.poly(fx, num(l), build(rng, e)[0])
        res2, _ = rec.poly(fy, num(m), build(rng, e2)[0])
    else:
        fx, fy = (ox.qmult, oy.qmult) if qf else (ox.mult, oy.mult)
        a, b = build(rng, al.S(l))[0], build(rng, e)[0]
        a2, b2 = build(rng, al.S(m))[0], build(rng, e2)[0]
        if rng.random() < 0.5:
            a, b, a2, b2 = b, a, b2, a2
        res, _ = rec.poly(fx, a, b)
        res2, _ = rec.poly(fy, a2, b2)
    rec.emit('iso', g=gi, h=hi, v=list(v), w=list(w), kind=kind, qf=qf, l=l, m=m, a=arg(e), b=arg(e2), how=how,
             res=res, res2=res2)


def gen_iso(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    for v in EXCEPTIONAL:
        C = va.classes(*v)
        for part in partners(v):
            for _ in range(10 if quick else 40):
                iso_event(rec, rng, v, part, rng.choice(C), linear(rng, C, qn=qnames(v)), 'mult')
    cat = [v for v in va.catalogue(ALL, 3, 40 if quick else 150, maxN=12) if partners(v)]
    rng.shuffle(cat)
    for v in cat[:40 if quick else 400]:
        C = va.classes(*v)
        for part in partners(v):
            for _ in range(4 if quick else 12):
                if rec.over():
                    return
                one_pair(rec, rng, v, part, C, True)
    big = [v for v in va.catalogue(ALL, 41, 900 if quick else 6000, maxN=20 if quick else 24) if partners(v)]
    byt = {}
    for v in big:
        byt.setdefault(va.typ(v[0], v[2]), []).append(v)
    for t in sorted(byt):
        for v in rng.sample(byt[t], min(len(byt[t]), 5 if quick else 60)):
            for part in partners(v):
                for _ in range(4 if quick else 8):
                    if rec.over():
                        return
                    one_pair(rec, rng, v, part, None, False)


def one_pair(rec, rng, v, part, C, small):
    kind, w, f, c, q = part
    t, k, n, rows, cols = va.params(*v)
    labs = [rng.choice(C) if small else va.random_label(rng, *v) for _ in range(3)]
    # codimension one corresponds for all kinds; special classes for most
    sp = [p for p in va.specials(*v)
          if kind != 'conjugate' and kind != 'exceptional' or p == 1]
    if sp and rng.random() < (0.3 if small else 0.5):
        p = rng.choice(sp)
        iso_event(rec, rng, v, part, va.special_label(p), linear(rng, labs, qn=qnames(v)), 'pieri')
        return
    l = rng.choice(labs)
    if not small:
        l = va.random_label(rng, *v, maxsize=9)
        labs = labs[:2]
    iso_event(rec, rng, v, part, l, linear(rng, labs, nterms=None if small else rng.choice([1, 1, 2]), qn=qnames(v)), 'mult')


# ---- C31 -------------------------------------------------------------------------

def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif x is not None:
        yield x


def inspect(a):
    from schubertpy import Schur
    syms = list(flat(a.list_schur_oprands()))
    if not all(isinstance(s, Schur) for s in syms):
        return {"kind": "odd", "text": repr(syms)[:200]}
    flags = [a.has_part_zero_padding(), a.is_valid(), a.is_operator('+'), a.is_operator('*'), a.is_operator('^')]
    if not all(isinstance(b, bool) for b in flags):
        return {"kind": "odd", "text": repr(flags)[:200]}
    return {"kind": "inspected", "syms": [list(s.p) for s in syms], "padded": flags[0], "valid": flags[1],
            "ops": flags[2:], "len": len(a)}


def gen_inspect(rec, rng, pid, tier, i, n):
    from schubertpy import LinearCombination
    for _ in range(900 if tier == 'quick' else 12000):
        if rec.over():
            return
        labs = [any_label(rng) for _ in range(rng.randint(1, 5))]
        many = [any_label(rng) for _ in range(rng.choice([rng.randint(8, 24), rng.randint(25, 60)]))]
        if rng.random() < 0.4:      # with at most one padded
            many = [[x for x in l if x] for l in many]
            many[rng.randrange(len(many))] = rng.choice(labs)
        e = rng.choice([lambda: linear(rng, many, nterms=len(many), qn=()), lambda: al.mul(*[al.S(l) for l in many[:rng.randint(4, 16)]]),
                        lambda: al.S(rng.choice(labs)), lambda: linear(rng, labs, qn=rng.choice([(), (), (1,), (2, 3)])),
                        lambda: linear(rng, labs, qn=()),
                        lambda: polynomial(rng, labs, maxterms=4, maxfactors=3, qn=rng.choice([(), (1, 2, 3)])),
                        lambda: al.num(rng.choice([0, 1, -1, 2, 5])), lambda: al.power(al.S(rng.choice(labs)), rng.choice([2, 3]))])()
        d = rng.choice([1, 1, 1, 1, 2, 3])
        a, form, _ = build(rng, e, d, rng.choice(['lc', 'lctext', 'lcexpr']))
        a = LinearCombination(a.expr.expand())
        before = (a.expr, str(a))
        res, bad = rec.call(inspect, a)
        rec.emit('inspect', a=arg(e, d), form=form, res=bad or res, kept=before == (a.expr, str(a)))
        if rng.random() < 0.05:
            res, bad = rec.call(a.is_operator, rng.choice(['-', '/', '**', '', 'add', '++', 'x']))
            rec.emit('raises', names=['ValueError'], law='unknown-operator-accepted', res=bad or {"kind": "odd", "text": repr(res)})


def any_label(rng):
    l = sorted((rng.randint(1, 14) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))), reverse=True)
    if rng.random() < 0.3:
        l = l + [0] * rng.choice([1, 1, 2])
    return l
